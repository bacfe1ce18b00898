"""C02: error codes and protocol error codes correspond by name in both directions, totally."""
from common import *

FINISH = dict(floor=0.9, minimum=100, explanation='both translation functions are evaluated by the value-flow analysis once per enumerator; the result must be the '
              'enumerator of the same name in the other vocabulary (or the designated generic code for codes that have none)')
# codes marked internal in error_code.h: they surface as the generic service error
GENERIC = 'SQL_SERVICE_EXCEPTION'


def table(c, d, f, en):
    out = {}
    for x in en['e']:
        e = engine.Engine(d)
        rs = e.run(f, args=[I(int(x['v']))])
        c.analysed(e)
        out[x['n']] = [(s.ctrl[0], None) if s.ctrl is not None else (None, s.ret) for s in rs]
    return out


def run(c):
    d = db.load([HEADERS])
    c.units |= set(d.tus)
    ec = d.enums.get('jogasaki::error_code')
    pc = d.enums.get('jogasaki::proto::sql::error::Code')
    if not ec or not pc:
        raise db.AnalysisBroken('error code enumerations not found')
    fs = d.find('jogasaki::api::impl::map_error')
    to = [f for f in fs if f['params'][0]['t'].replace('const ', '') == 'jogasaki::error_code']
    back = [f for f in fs if f['params'][0]['t'].replace('const ', '').endswith('error::Code')]
    if len(to) != 1 or len(back) != 1:
        raise db.AnalysisBroken('translation functions not found')
    pval = {x['n']: int(x['v']) for x in pc['e'] if not x['n'].startswith('Code_INT_')}
    eval_ = {x['n']: int(x['v']) for x in ec['e']}
    t = table(c, d, to[0], ec)
    for n, rs in t.items():
        want = n.upper() if n.upper() in pval else 'CODE_UNSPECIFIED' if n == 'none' else GENERIC
        judge(c, 'code to protocol', n, want, pval[want], rs, where(to[0]))
    t = table(c, d, back[0], pc)
    for n, rs in t.items():
        if n.startswith('Code_INT_'):
            continue
        want = n.lower() if n.lower() in eval_ else 'none'
        judge(c, 'protocol to code', n, want, eval_[want], rs, where(back[0]))
    # the two vocabularies themselves: every protocol code but the unspecified one has an error code
    for n in pval:
        if n != 'CODE_UNSPECIFIED':
            c.ob(n.lower() in eval_ or None, 'every protocol code has an error code', n, where(back[0]))


def judge(c, rule, n, want, wv, rs, w):
    if not rs:
        c.undecided(rule, n, w, 'no result')
    for ctrl, v in rs:
        if ctrl is not None:
            c.fail(rule, n, w, f'ends with {ctrl} instead of {want}')
        elif v[0] != 'i':
            c.undecided(rule, n, w, show(v)[:100])
        else:
            c.ob(v[1] == wv, rule, n, w, f'value {v[1]}, expected {want}={wv}')
