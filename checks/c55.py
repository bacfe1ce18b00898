"""C55: what the storage engine says reaches the caller unchanged, and what was taken from it is given back once."""
from contracts import *
from sai import db, models

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over every answer of the storage engine, each call of which is modelled by an arbitrary status and, on success, an arbitrary result')
S = 'src/jogasaki/kvs/'
SRC = [S + f for f in ('error.cpp', 'storage.cpp', 'iterator.cpp', 'database.cpp', 'transaction.cpp')]
# an answer that cannot be told to the caller ends with an exception
REFUSED = ('a_storage_that_was_found_is_given_back_once', 'a_storage_that_was_made_is_given_back_once', 'a_storage_is_made_only_when_there_is_none',
           'a_handle_is_borrowed_once', 'the_state_of_a_transaction_is_asked_from_the_engine')
CODE = 'sharksfin::StatusCode'


def run(c):
    d = db.load([probe('handles.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/handles.cpp', *SRC}
    for ns in ('meaning', 'entries', 'owning', 'transacting'):
        run_contracts(c, d, ns, engine_opts=dict(only_throws=True, hooks=HOOKS), throws=REFUSED)


def name_of(e, st, v):
    return models.cstr(e, st, v)[1][0][1].decode()


def api(name, outs=()):
    """An answer of the engine: any status; what it stores on success is anything of that type."""
    def f(e, st, fr, n, base, vs):
        out = []
        e.n += 1
        code = e.opaque_value(('app', 'param', ('n', f'answer{e.n}')), CODE)
        # what is only lent for the time of the call
        lent = (e.read(st, e.as_loc(vs[1]), 'sharksfin::TransactionOptions'),) if name == 'transaction_begin' else ()
        if not outs:
            s = st.copy()
            s.ev('api', name, tuple(vs), code, lent)
            return [(s, code)]
        for s in e.assume(st, e.cmp('==', code, ZERO), True):
            got = list(lent)
            for i, t in outs:
                e.n += 1
                v = e.opaque_value(('app', 'param', ('n', f'{name}{e.n}')), t)
                if t.endswith('*'):
                    v = ('ptr', ('d', v))
                e.write(s, e.as_loc(vs[i]), v, n.get('l'), log=False)
                got.append(v)
            s.ev('api', name, tuple(vs), code, tuple(got))
            out.append((s, code))
        for s in e.assume(st, e.cmp('==', code, ZERO), False):
            s.ev('api', name, tuple(vs), code, lent)
            out.append((s, code))
        return out
    return f


def asked(e, st, vs):
    name = name_of(e, st, vs[0])
    return [x for x in st.eff if x[0] == 'api' and x[1] == name]


def calls(e, st, fr, n, base, vs):
    return [(st, I(len(asked(e, st, vs))))]


def answer(e, st, fr, n, base, vs):
    x = asked(e, st, vs)
    return [(st, x[-1][3])] if x else None


def precedes(e, st, fr, n, base, vs):
    a, b = (name_of(e, st, v) for v in vs)
    ns = [x[1] for x in st.eff if x[0] == 'api' and x[1] in (a, b)]
    return [(st, I(int(ns == sorted(ns, key=lambda x: x == b))))]


def given(e, st, fr, n, base, vs):
    x = asked(e, st, vs)
    return [(st, x[-1][2][vs[1][1]])] if x else None


def found(e, st, fr, n, base, vs):
    x = [x for x in st.eff if x[0] == 'api' and x[1] == 'storage_get' and x[4]]
    return [(st, x[vs[0][1]][4][0])] if vs[0][0] == 'i' and vs[0][1] < len(x) else None


def handed(e, st, fr, n, base, vs):
    name, _, i = name_of(e, st, vs[0]).partition('#')
    x = [x for x in st.eff if x[0] == 'api' and x[1] == name and x[4]]
    return [(st, x[-1][4][int(i or 0)])] if x else None


def commit(e, st, fr, n, base, vs):
    """the engine calls back before it returns."""
    e.n += 1
    code = e.opaque_value(('app', 'param', ('n', f'answer{e.n}')), CODE)
    s = st.copy()
    s.ev('api', 'transaction_commit_with_callback', tuple(vs), code, ())
    cb = e.read(s, vs[1][1]) if vs[1][0] == 'ptr' else vs[1]
    if cb[0] != 'lam':
        return [(s, TRUE), (s.copy(), FALSE)]
    out = []
    for s2, _ in e.call_lambda(s, fr, cb, [code, ZERO, ZERO], n):
        out += [(s2, TRUE), (s2.copy(), FALSE)]
    # or while the caller waits
    late = st.copy()
    late.ev('api', 'transaction_commit_with_callback', tuple(vs), code, ())
    late.ev('pending', cb, code)
    return out + [(late, FALSE)]


def looks(e, st, fr, n, base, vs):
    p = [x for x in st.eff if x[0] in ('pending', 'served')]
    if not p or p[-1][0] == 'served':
        return None
    out = []
    if not any(x[0] == 'not yet' for x in st.eff):
        s = st.copy()
        s.ev('not yet')
        out.append((s, e.read(s, base, 'bool')))
    s = st.copy()
    s.ev('served')
    # in the midst of the callback the caller may see what it stored so far
    MIDST.clear()
    done = e.call_lambda(s, fr, p[-1][1], [p[-1][2], ZERO, ZERO], n)
    midst = list(MIDST)
    MIDST.clear()
    return out + [(s2, e.read(s2, base, 'bool')) for s2 in midst] + [(s2, e.read(s2, base, 'bool')) for s2, _ in done]


MIDST = []


def tells(e, st, fr, n, base, vs):
    s = st.copy()
    e.write(s, base, vs[0], n.get('l'))
    if any(x[0] == 'served' for x in s.eff):
        MIDST.append(s.copy())
    return [(s, vs[0])]


H = {'S': 'sharksfin::StorageStub *', 'T': 'sharksfin::TransactionStub *', 'C': 'sharksfin::TransactionControlStub *', 'I': 'sharksfin::IteratorStub *', 'D': 'sharksfin::DatabaseStub *'}
OUTS = {'content_get': [(3, 'sharksfin::Slice')], 'content_scan': [(6, H['I'])], 'iterator_get_key': [(1, 'sharksfin::Slice')], 'iterator_get_value': [(1, 'sharksfin::Slice')],
        'storage_get': [(2, H['S'])], 'storage_create': [(3, H['S'])], 'database_open': [(2, H['D'])], 'transaction_begin': [(2, H['C'])], 'transaction_borrow_handle': [(1, H['T'])],
        'transaction_acquire_handle': [(1, H['T'])], 'sequence_create': [(1, 'unsigned long')], 'sequence_get': [(2, 'unsigned long'), (3, 'long')], 'transaction_get_info': [],
        'transaction_check': [(1, 'sharksfin::TransactionState')]}
NAMES = set(OUTS) | {'content_put_with_blobs', 'content_delete', 'iterator_next', 'iterator_dispose', 'storage_dispose', 'storage_delete', 'storage_set_options', 'storage_get_options', 'storage_list',
                     'database_close', 'database_dispose', 'transaction_abort', 'transaction_dispose', 'transaction_release_handle', 'sequence_put', 'sequence_delete'}
HOOKS = {'probe::calls': calls, 'probe::answer': answer, 'probe::precedes': precedes, 'probe::given': given, 'probe::handed': handed, 'probe::found': found, 'std::atomic::operator=': tells, 'std::atomic::store': tells, 'std::atomic::operator bool': looks, 'std::atomic::load': looks, 'std::atomic::operator _Bool': looks,
         'sharksfin::transaction_commit_with_callback': commit, **{'sharksfin::' + x: api(x, OUTS.get(x, ())) for x in NAMES}}
