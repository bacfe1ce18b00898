"""C03: sanitize_utf8 - RFC 3629 exact acceptance, every byte kept raw or escaped, in bounds, progress."""
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
from utf8spec import utf8_len, UTF8_MASKS, ID, HEXHI, HEXLO

TU = ['src/jogasaki/utils/sanitize_utf8.cpp']
FINISH = dict(floor=0.5, minimum=2, explanation='abstract interpretation of the sanitizer: each abstract transition of the scanning loop '
              '(byte masks ahead of the cursor, remaining length) is compared with the RFC 3629 transition on every cell of the induced partition; '
              'all element reads are bounds obligations under inferred linear loop invariants')


def esc(j):
    return [('c', c) for c in b'\\x{'] + [('b', j, HEXHI), ('b', j, HEXLO)] + [('c', c) for c in b'}']


def printable(n, b):
    if n == 1:
        return 0x20 <= b[0] <= 0x7e
    return not (n == 2 and b[0] == 0xc2 and b[1] <= 0x9f)


def spec(r, b):
    n = utf8_len(r, b)
    if n and printable(n, b):
        return ('next', n, [('b', j, ID) for j in range(n)])
    if n:
        return ('next', n, sum((esc(j) for j in range(n)), []))
    return ('next', 1, esc(0))


def run(c):
    d = db.load(TU)
    c.units |= set(TU)
    for f in d.find('jogasaki::utils::sanitize_utf8'):
        c.part('sanitize_utf8', one, c, d, f)


def one(c, d, f):
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    loops = find_loops(rs)
    for s in rs:
        if s.ctrl is not None:
            c.fail('returns', 'sanitize_utf8', w, f'a path ends with {s.ctrl[0]}')
    if len(loops) != 1:
        raise NotTransducer(f'{len(loops)} scanning loops')
    L = loops[0]
    sc = Scan(e, rs, L, S, 4, out_of=rs[0].ret)
    bounds_obs(c, e, pins=[(sc.cur, sc.entry_cursor())])
    c.ob(True if sc.entry_cursor() == ZERO else False, 'starts at the first byte', 'sanitize_utf8', w, show(sc.entry_cursor()))
    c.ob(True if const_str(sc.entry_out()) == b'' else None, 'output starts empty', 'sanitize_utf8', w, show(sc.entry_out()))
    for s in rs:
        c.ob(True if s.ret == L.head[sc.out_slot] else None, 'returns exactly the accumulated output', 'sanitize_utf8', w, show(s.ret)[:200])
    check_scan(c, sc, 'sanitize_utf8', w, spec, UTF8_MASKS)
