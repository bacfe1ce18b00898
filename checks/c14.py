"""C14: the stream of function results is a correct bounded-by-nothing queue between threads."""
from sync import *

FINISH = dict(floor=0.15, minimum=5, explanation='every member of the result stream is summarised for an arbitrary shared state (re-read after each acquisition of the lock); accesses are checked '
              'against the lock set, every change a waiter looks for against the notifications after it, and results against the queue discipline')
NS = 'plugin::udf::'
CLS, REC = NS + 'generic_record_stream_impl', NS + 'generic_record_impl'
TUS = ['src/jogasaki/udf/generic_record_impl.cpp', 'src/jogasaki/udf/error_info.cpp']


class K:
    pass


def run(c):
    d = db.load(TUS)
    c.units |= set(d.tus)
    if CLS not in d.recs:
        raise db.AnalysisBroken('stream class not found')
    e = engine.Engine(d)
    k = K()
    k.f = fields_of(d, e, CLS)
    if len(k.f['mutex']) != 1 or len(k.f['cv']) != 1:
        raise db.AnalysisBroken('stream lock not found')
    k.q = [x for x in k.f['data'] if M.head(e.strip(x['t'])) in ('std::queue', 'std::deque', 'std::list', 'std::vector')]
    if len(k.q) != 1:
        raise db.AnalysisBroken('stream queue not found')
    k.q = k.q[0]
    k.flags = [x['n'] for x in k.f['data'] if e.strip(x['t']) in ('bool', 'std::atomic<bool>')]
    k.ft = {x['n']: x['t'] for x in k.f['data']}
    k.end = set_by(d, k, 'end_of_stream')
    k.close = set_by(d, k, 'close')
    if not k.end or not k.end <= k.close:
        c.undecided('flags', 'end of stream', '', f'{k.end} {k.close}')
    fs = {}
    for f in members(d, CLS):
        fs.setdefault(f['q'].split('::')[-1], []).append(f)
        c.part('discipline ' + f['q'].split('::')[-1], discipline, c, d, k, f)
    for n, g in (('push', push), ('end_of_stream', finish), ('close', finish), ('try_next', take), ('next', take)):
        if n not in fs:
            raise db.AnalysisBroken(n + ' not found')
        c.part(n, g, c, d, k, fs[n][0])
    for l in fs.values():
        for f in l:
            if any(CLS in p['t'] and '&&' in p['t'] for p in f['params']):
                c.part('move', move, c, d, k, f)
    c.part('destructor', destroyed, c, d, k, next(f for n, l in fs.items() if n.startswith('~') for f in l))


def set_by(d, k, n):
    e = engine.Engine(d)
    r = None
    for s in e.run(d.find(CLS + '::' + n)[0]):
        x = {b for b in k.flags if e.truth(s, e.read(s, fld(THIS, b), k.ft[b])) is True}
        r = x if r is None else r & x
    return r or set()


def summaries(d, f):
    e = engine.Engine(d)
    e.track_reads = True

    def setup(st):
        for i, p in enumerate(f['params']):
            if NS + 'generic_record &' in p['t'] or p['t'].endswith('generic_record &'):
                st.cls[pd(f, i)] = REC
    return e, e.run(f, setup=setup)


def triggers(e, s, k, o):
    """(event index, what) of the changes a blocked consumer has to hear of."""
    r = []
    for i, x in enumerate(s.eff):
        if x[0] != 'wr':
            continue
        if x[1] == fld(o, k.q['n']):
            v = x[2]
            if v[0] == 'app' and v[1] == 'push':
                r.append((i, 'record'))
            elif not (v == ('seq', ()) or (v[0] == 'app' and v[1] in ('popf', 'upd', 'popb'))):
                r.append((i, 'contents'))
        for b in k.end | k.close:
            if x[1] == fld(o, b) and x[2] != FALSE:
                r.append((i, 'end'))
    return r


def discipline(c, d, k, f):
    e, ends = summaries(d, f)
    c.analysed(e)
    mx = k.f['mutex'][0]['n']
    cv = k.f['cv'][0]['n']
    name = f['q'].split('::')[-1]
    if f.get('acc') == 2:
        return          # runs with the lock of its callers; its body is analysed inside them
    for s in ends:
        guarded(c, e, d, CLS, f, s, k.f)
        lock_balance(c, e, f, s)
        for o in owners(d, f, CLS):
            if o == THIS and kind(f) == 'ctor':
                continue
            for i, what in triggers(e, s, k, o):
                r = notified_after(s, fld(o, cv), fld(o, mx), i)
                ok = bool(r) if what == 'record' else 'notify_all' in r
                c.ob(ok, 'waiters are told', f'{name}: {what} of {label(f, o)}', where(f), 'no notification of every waiter follows the change' if what != 'record' else 'no notification follows')
        for w in waits(s):
            c.ob(fld(THIS, mx) in w[2] and w[1] == fld(THIS, cv), 'waits with its own lock', name, where(f))
        two = [x for j, x in enumerate(s.eff) if x[0] == 'lock']
        if len(two) > 1 and len({x[2] for x in two}) > 1 and nested(s):
            c.fail('two streams are locked together', name, where(f), 'the second lock is taken while the first is held, in an order another thread can reverse')


def nested(s):
    held = []
    for x in s.eff:
        if x[0] == 'lock':
            if held and any(l != x[2] for _, l in held):
                return True
            held.append((x[1], x[2]))
        elif x[0] == 'unlock':
            held = [h for h in held if h[0] != x[1]]
    return False


def qval(e, s, k, o=THIS):
    return e.read(s, fld(o, k.q['n']), k.q['t'])


def is_flag(e, s, k, b):
    return current(e, s, fld(THIS, b))


def push(c, d, k, f):
    e, ends = summaries(d, f)
    c.analysed(e)
    some = False
    for s in ends:
        Q = current(e, s, fld(THIS, k.q['n']))
        v = qval(e, s, k)
        refused = [(is_flag(e, s, k, b), False) for b in sorted(k.close)]
        if v == ('app', 'push', Q, param(f)):
            some = True
            c.hold('a record pushed is queued last', 'push', where(f))
            for b in sorted(k.close):
                c.ob(not possible(e, s, [(is_flag(e, s, k, b), True)]) or None, 'nothing is queued after the end', 'push', where(f))
        elif v == Q:
            c.ob(not possible(e, s, refused), 'an open stream takes every record', 'push', where(f), 'a record can be dropped')
        else:
            c.ob(False if pure(v) else None, 'a record pushed is queued last', 'push', where(f), show(v)[:160])
    c.ob(some or None, 'a record pushed is queued last', 'push some', where(f))


def finish(c, d, k, f):
    n = f['q'].split('::')[-1]
    e, ends = summaries(d, f)
    for s in ends:
        for b in sorted(k.end if n == 'end_of_stream' else k.close):
            x = flagged(e, s, e.read(s, fld(THIS, b), k.ft[b]))
            c.ob(x, 'the end is recorded', f'{n}: {b}', where(f))
        Q = current(e, s, fld(THIS, k.q['n']))
        v = qval(e, s, k)
        if n == 'close':
            empty = e.truth(s, e.cmp('==', e.csize(v), I(0)))
            if empty is True:
                c.hold('a closed stream delivers nothing more', n, where(f))
            else:
                left = delivers_when_closed(d, k)
                c.ob(True if left is False else False if left and (v == Q or clean(s)) else None, 'a closed stream delivers nothing more', n, where(f), 'records queued before the close stay and are still handed out')
        if n == 'end_of_stream':
            c.ob(True if v == Q else False, 'the end keeps the records queued before it', n, where(f), show(v)[:100])


def delivers_when_closed(d, k):
    """the name of a reader that still takes a record from a stream with every end flag set, False if none does."""
    for g in members(d, CLS):
        if g['q'].split('::')[-1] in ('try_next', 'next'):
            e, ends = summaries(d, g)
            for s in ends:
                Q = current(e, s, fld(THIS, k.q['n']))
                if qval(e, s, k) != Q and possible(e, s, [(e.cmp('>=', e.csize(Q), I(1)), True)] + [(is_flag(e, s, k, b), True) for b in sorted(k.close)]):
                    return g['q'].split('::')[-1]
    return False


def take(c, d, k, f):
    n = f['q'].split('::')[-1]
    e, ends = summaries(d, f)
    c.analysed(e)
    en = next((x for q, x in d.enums.items() if q.endswith('generic_record_stream_status') or q.endswith('generic_record_stream::status_type')), None)
    if en is None:
        raise db.AnalysisBroken('status enumeration not found')
    st = {x['n']: int(x['v']) for x in en['e']}
    name = {v: a for a, v in st.items()}
    R = pd(f, 0)
    rf = {x['n']: x['t'] for x, _ in d.all_fields(REC)}
    errf = [a for a, t in rf.items() if M.head(e.strip(t)) == 'std::optional'][0]
    seen = {}
    timed = param(f, 1) if len(f['params']) > 1 else None
    for s0 in ends:
        if s0.ctrl is not None:
            c.undecided('ends normally', n, where(f), s0.ctrl[0])
            continue
        for s, ret in top_cases(e, s0, s0.ret):
            Q = current(e, s, fld(THIS, k.q['n']))
            size = e.csize(Q)
            some = e.cmp('>=', size, I(1))
            flags = [(current(e, s, fld(THIS, b)), b) for b in sorted(k.end)]
            closed = [(current(e, s, fld(THIS, b)), False) for b in sorted(k.close - k.end)]
            v = qval(e, s, k)
            r = name.get(ret[1]) if ret[0] == 'i' else None
            if r is None:
                c.undecided('status', n, where(f), show(ret)[:80])
                continue
            tl = [None] if timed is None else [x for x in (True, False) if possible(e, s, [(('app', 'engaged', timed), x)])]
            for t in tl:
                # states in which the closed flag holds without the end flag do not occur
                for u in possible(e, s, [(some, True)] + closed):
                    key = n + (' timed' if t else '') + ' with a record'
                    seen.setdefault(key, False)
                    got = popped(v, Q)
                    if not got and v == Q and r in ('not_ready', 'end_of_stream'):
                        c.fail('a queued record is delivered', key, where(f), f'answers {r} although one is queued')
                        continue
                    if not got:
                        c.ob(False if pure(v) else None, 'the first record leaves the queue', key, where(f), show(v)[:140])
                        continue
                    seen[key] = True
                    c.hold('the first record leaves the queue', key, where(f))
                    src = ('d', ('app', 'select', Q, I(0)))
                    for a, at in rf.items():
                        record(c, 'the record delivered is the first one', f'{key}: {a}', where(f), same(e, u, e.read(u, fld(R, a), at), init(fld(src, a)), at, None, a))
                    er = ('app', 'engaged', init(fld(src, errf)))
                    wrong = possible(e, u, [(er, r == 'ok')])
                    c.ob(True if not wrong and r in ('ok', 'error') else False if r not in ('ok', 'error') or clean(u) else None, 'the status tells a record from an error', key, where(f), f'answers {r}')
                fl = [x for x, _ in flags]
                for u in possible(e, s, [(some, False), (fl[0], True)]):
                    key = n + (' timed' if t else '') + ' at the end'
                    seen[key] = True
                    c.ob(r == 'end_of_stream', 'the end is reported once nothing is queued', key, where(f), f'answers {r}')
                    c.ob(True if v == Q else None, 'an empty queue stays as it is', key, where(f), show(v)[:100])
                if closed or True:
                    for u in possible(e, s, [(some, False), (fl[0], False)] + closed):
                        key = n + (' timed' if t else '') + ' while empty'
                        if n == 'next' and not t:
                            c.fail('waits until something happens', key, where(f), f'answers {r} although nothing was queued and the stream is open')
                        else:
                            c.ob(r == 'not_ready', 'not ready while empty and open', key, where(f), f'answers {r}')
                            seen[key] = True
        for w in waits(s0):
            if n == 'next' and w[7] is not None:
                want = e.proj(s0, timed, '*', None) if timed is not None else None
                c.ob(True if w[7] == want else False if pure(w[7]) else None, 'waits no longer than asked', n, where(f), show(w[7])[:100])
    for b, j, L in [y for x in ends for y in bare_waits(x)]:
        for cond, what in [(e.cmp('>=', e.csize(at_wait(e, b, j, L, fld(THIS, k.q['n']))), I(1)), 'a record is queued')] + \
                [(at_wait(e, b, j, L, fld(THIS, x)), 'the stream has ended') for x in sorted(k.end)]:
            c.ob(not possible(e, b, [(cond, True)]), 'blocks only when nothing is there', f'{n}: {what}', where(f), f'waits although {what}')
    want = [n + ' with a record', n + ' at the end'] + ([n + ' timed with a record', n + ' timed at the end', n + ' timed while empty'] if timed is not None else [n + ' while empty'])
    for key in want:
        c.ob(True if seen.get(key) else False, 'a consumer gets an answer', key, where(f), 'no path returns in this situation: the consumer stays blocked')


def popped(v, Q):
    return v[0] == 'app' and v[1] == 'popf' and (v[2] == Q or (v[2][0] == 'app' and v[2][1] == 'upd' and v[2][2] == Q and v[2][3] == I(0)))


def move(c, d, k, f):
    e, ends = summaries(d, f)
    n = 'move ' + kind(f)
    o = pd(f, 0)
    for s in ends:
        if possible(e, s, [(e.cmp('==', ('ptr', o), ('ptr', THIS)), True)]) and kind(f) == 'fn':
            for g in k.f['data']:
                x = e.read(s, fld(THIS, g['n']), g['t'])
                c.ob(True if x == init(fld(THIS, g['n'])) else None, 'assignment to itself changes nothing', f'{n}: {g["n"]}', where(f), show(x)[:100])
            continue
        for g in k.f['data']:
            x = e.read(s, fld(THIS, g['n']), g['t'])
            w = current(e, s, fld(o, g['n']))
            c.ob(True if x in (w, init(fld(o, g['n']))) else False if pure(x) else None, 'the state moves over', f'{n}: {g["n"]}', where(f), show(x)[:100])
        for b in sorted(k.close):
            x = flagged(e, s, e.read(s, fld(o, b), k.ft[b]))
            c.ob(x, 'the stream moved from is at its end', f'{n}: {b}', where(f))


def destroyed(c, d, k, f):
    e, ends = summaries(d, f)
    for s in ends:
        for b in sorted(k.close):
            c.ob(flagged(e, s, e.read(s, fld(THIS, b), k.ft[b])), 'destruction ends the stream', b, where(f))
