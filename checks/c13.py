"""C13: use counters and stop watches."""
from contracts import *
from sync import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over stop watches are summarised path by path; the use counter is checked against shared ownership of a token')
SRC = ['src/jogasaki/utils/watch.cpp', 'src/jogasaki/utils/performance_tools.cpp', 'src/jogasaki/utils/use_counter.cpp']


def run(c):
    d = db.load([probe('watch.cpp')] + SRC)
    c.units |= {'probes/watch.cpp', *SRC}
    run_contracts(c, d, 'watch')
    c.part('recording under the lock', recording, c, d)
    d = db.load(SRC[2:])
    c.part('use counter', counter, c, d)


def recording(c, d):
    """workers record concurrently: points are set and forgotten under the lock of the watch."""
    cls = 'jogasaki::utils::watch'
    e = engine.Engine(d)
    fl = fields_of(d, e, cls)
    if len(fl['mutex']) != 1:
        return c.undecided('counter', 'recording under the lock', cls, 'no single lock')
    for f in members(d, cls):
        if f['q'].split('::')[-1] not in ('set_point', 'restart'):
            continue
        e = engine.Engine(d)
        e.track_reads = True
        for s in e.run(f):
            guarded(c, e, d, cls, f, s, fl)
            lock_balance(c, e, f, s)
        c.analysed(e)


def assigned_to_itself(s, f):
    """the path on which the source was found to be the object itself."""
    both = {('ptr', THIS), ('ptr', pd(f))}
    return any(v and k[0] == 'app' and k[1] == 'eq' and set(k[2:4]) == both for k, v in s.facts.bools.items())


UC = 'jogasaki::utils::use_counter'


def counter(c, d):
    e = engine.Engine(d)
    if UC not in d.recs:
        raise db.AnalysisBroken('use_counter not found')
    fl = fields_of(d, e, UC)
    flds = [x for k in fl.values() if isinstance(k, list) for x in k]
    tok = [x for x in flds if 'shared_ptr<' in x['t']]
    if len(flds) != 1 or len(tok) != 1:
        return c.undecided('counter', 'shared token', UC, 'the representation is not one shared token')
    n, t = tok[0]['n'], tok[0]['t']
    seen = {}
    for f in d.fns.values():
        if f.get('parent') == UC or f['q'].rsplit('::', 1)[0] == UC:
            k = f['q'].split('::')[-1]
            p = f['params'][0]['t'] if f['params'] else ''
            seen[k + ('&&' if p.endswith('&&') else '&' if p.endswith('&') else '')] = f
    for k, what in (('~use_counter', 'destruction'), ('use_counter&', 'copy'), ('operator=&', 'copy assignment'), ('use_counter&&', 'move'), ('operator=&&', 'move assignment'),
                    ('use_counter', 'default construction'), ('reset', 'reset'), ('count', 'count')):
        f = seen.get(k)
        if f is None:
            if k in ('reset', 'count'):
                raise db.AnalysisBroken(f'use_counter::{k} not found')
            c.undecided('counter', what, UC, 'not declared')
            continue
        if f.get('deleted'):
            c.fail('counter', what, where(f), 'deleted')
            continue
        if not f.get('body'):
            if k in ('use_counter&&', 'operator=&&', 'use_counter'):
                c.fail('counter', what, where(f), 'leaves an object without a token: it has to own a fresh one')
            else:
                c.hold('counter', what, where(f), 'the token is shared or given up')
            continue
        e = engine.Engine(d)
        rs = e.run(f)
        c.analysed(e)
        bad = und = None
        for s in rs:
            if s.ctrl is not None:
                und = und or f'ends with {s.ctrl[0]}'
                continue
            here = fld(THIS, n)
            now = e.read(s, here, t)
            if k.startswith('operator=') and assigned_to_itself(s, f):
                continue
            lost = any(x[0] in ('loop', 'unknown') for x in s.eff)
            fresh = lambda v: v[0] == 'ptr' and v[1][0] == 'h'
            msg = None
            if k == 'count':
                v = s.ret
                while v and v[0] == 'app' and v[1] in ('trunc', 'sext', 'zext'):
                    v = v[2]
                if now != init(here):
                    msg = 'counting changes the token'
                elif not (v and v[0] == 'app' and v[1] == 'use_count' and v[2] == init(here)):
                    msg = f'counts {show(s.ret) if s.ret else None}'
            elif k in ('reset', 'use_counter'):
                msg = None if fresh(now) else f'token is {show(now)}'
            elif k == '~use_counter':
                pass
            else:
                o = fld(pd(f), n)
                src = init(o)
                if now != src:
                    msg = f'token is {show(now)} instead of the one of the source'
                ov = e.read(s, o, t)
                if k.endswith('&&'):
                    msg = msg or (None if fresh(ov) else f'the source is left with {show(ov)}')
                else:
                    msg = msg or (None if ov == src else f'the source is changed to {show(ov)}')
                if k.startswith('operator=') and not (s.ret and s.ret[0] == 'ptr' and s.ret[1] == THIS):
                    msg = msg or 'does not give back the object'
            if lost and msg:
                und = und or msg
            else:
                bad = bad or msg
        (c.fail if bad else c.undecided if und else c.hold)('counter', what, where(f), bad or und or f'{len(rs)} paths')
