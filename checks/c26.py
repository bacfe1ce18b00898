"""C26: header bytes of the value encoding: a partition of 0..255, masks and limits consistent."""
from common import *

FINISH = dict(floor=0.9, minimum=40, explanation='the header constants are folded from their initialisers in the type-checked AST; ranges are compared exhaustively over 0..255')
NS = 'jogasaki::serializer::details::'
GROUPS = {'positive_int': 0x40, 'character': 0x40, 'row': 0x20, 'array': 0x20, 'negative_int': 0x10, 'octet': 0x10, 'bit': 8}
SIZED = ['character', 'octet', 'bit', 'row', 'array']


def run(c):
    d = db.load([HEADERS])
    c.units |= set(d.tus)
    e = engine.Engine(d)
    g = {}
    at = {}
    for q, x in d.globals.items():
        if q.startswith(NS):
            v = e.global_value(engine.St(), x['qt'], x)
            n = q[len(NS):]
            at[n] = f"{x['file'].replace(db.REPO + '/', '')}:{x['line']} {q}"
            if v[0] != 'i':
                c.undecided('constant', n, at[n], show(v)[:100])
            else:
                g[n] = v[1]
    owner = {}
    for n, v in sorted(g.items()):
        if not n.startswith('header_'):
            continue
        k = n[len('header_'):]
        m = 0
        if k.startswith('embed_'):
            m = g.get('mask_' + k)
            if m is None:
                c.undecided('mask', n, at[n])
                continue
            c.ob(m & (m + 1) == 0, 'mask is a run of low bits', n, at[n], f'{m:#x}')
            c.ob(v & m == 0, 'mask does not overlap the tag', n, at[n], f'{v:#x} & {m:#x}')
        c.ob(0 <= v and v + m <= 255, 'fits a byte', n, at[n])
        for b in range(v, v + m + 1):
            if b in owner:
                c.fail('one meaning per header byte', n, at[n], f'byte {b:#x} is also {owner[b]}')
                break
            owner[b] = n
        else:
            c.hold('one meaning per header byte', n, at[n])
    c.ob(set(owner) == set(range(256)), 'every header byte has a meaning', 'headers', '', 'missing ' + ','.join(f'{b:#x}' for b in range(256) if b not in owner)[:80])
    for k, size in GROUPS.items():
        n = 'header_embed_' + k
        if n in g and 'mask_embed_' + k in g:
            c.ob(g['mask_embed_' + k] + 1 == size, 'embedded range', n, at[n], f"{g['mask_embed_' + k] + 1} values")
        else:
            c.undecided('embedded range', n)

    def eq(n, v):
        if n in g:
            c.ob(g[n] == v, 'limit agrees with the mask', n, at[n], f'{g[n]}, expected {v}')
        else:
            c.undecided('limit agrees with the mask', n)
    eq('min_embed_positive_int_value', 0)
    eq('max_embed_positive_int_value', g.get('mask_embed_positive_int', -1))
    eq('max_embed_negative_int_value', -1)
    eq('min_embed_negative_int_value', -1 - g.get('mask_embed_negative_int', -1))
    for k in SIZED:
        eq(f'min_embed_{k}_size', 1)
        eq(f'max_embed_{k}_size', g.get('mask_embed_' + k, -1) + 1)
    eq('limit_size', 1 << 31)
    eq('max_decimal_coefficient_size', 17)
    # every kind of entry has a header of its own
    en = d.enums.get('jogasaki::serializer::entry_type')
    alias = {'null': 'unknown', 'int_': 'int'}
    for x in en['e'] if en else ():
        n = 'header_' + alias.get(x['n'], x['n'])
        c.ob(True if n in g else None, 'entry type has a header', x['n'], at.get(n, ''))
