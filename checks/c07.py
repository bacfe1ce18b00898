"""C07: text made ready for display - control characters replaced, the rest of ASCII copied, other bytes dropped, all in order."""
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
from utf8spec import ID

TU = ['src/jogasaki/utils/convert_control_characters.cpp']
FINISH = dict(floor=0.1, minimum=3, explanation='abstract interpretation of the conversion loop: each abstract transition (byte mask under the cursor, remaining length) is compared '
              'with the designated treatment of that byte; element reads are bounds obligations')
MASKS = [[rng(0, 0x1f), rng(0x20, 0x7f), rng(0x80, 0xff)]]


def spec(r, b):
    if b[0] <= 0x1f:
        return ('next', 1, [('c', ord('!'))])
    return ('next', 1, [('b', 0, ID)] if b[0] <= 0x7f else [])


def run(c):
    d = db.load(TU)
    c.units |= set(TU)
    for f in d.find('jogasaki::utils::convert_control_characters'):
        c.part('convert_control_characters', one, c, d, f, spec, MASKS)


def one(c, d, f, spec, masks, horizon=1):
    n = f['q'].split('::')[-1]
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    for s in rs:
        if s.ctrl is not None:
            c.fail('returns', n, w, f'a path ends with {s.ctrl[0]}')
    loops = find_loops(rs)
    if len(loops) != 1:
        raise NotTransducer(f'{len(loops)} scanning loops')
    L = loops[0]
    sc = Scan(e, rs, L, S, horizon, out_of=rs[0].ret)
    bounds_obs(c, e, pins=[(sc.cur, sc.entry_cursor())] if sc.cur_slot is not None else ())
    c.ob(True if sc.entry_cursor() == ZERO else False, 'starts at the first byte', n, w, show(sc.entry_cursor()))
    c.ob(True if const_str(sc.entry_out()) == b'' else None, 'output starts empty', n, w, show(sc.entry_out()))
    for s in rs:
        c.ob(True if s.ret == L.head[sc.out_slot] else None, 'returns exactly the accumulated output', n, w, show(s.ret)[:200])
    check_scan(c, sc, n, w, spec, masks)
