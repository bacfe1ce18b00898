"""C04: UTF-8 boundary detection and whole-string validation."""
import itertools
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
import scans

TU = ['src/jogasaki/utils/utf8_utils.cpp']
FINISH = dict(floor=0.3, minimum=2, explanation='abstract interpretation of the detector: every end state (byte masks at and after the offset, bytes left) is compared with the classification by lead and continuation '
              'bytes on every cell of the induced partition; the validator is compared with the concatenation of such characters, step by step and on all short strings; element reads are bounds obligations')
LEAD = [rng(0, 0x7f), rng(0x80, 0xbf), rng(0xc0, 0xc1), rng(0xc2, 0xdf), rng(0xe0, 0xef), rng(0xf0, 0xf4), rng(0xf5, 0xff)]
CONT = [rng(0x80, 0xbf)]
MASKS = [LEAD, CONT, CONT, CONT]


def length(r, b):
    """bytes of the character standing first, 0 when it is cut off or malformed."""
    x = b[0]
    n = 1 if x <= 0x7f else 2 if 0xc2 <= x <= 0xdf else 3 if 0xe0 <= x <= 0xef else 4 if 0xf0 <= x <= 0xf4 else 0
    return n if n and r >= n and all(0x80 <= b[j] <= 0xbf for j in range(1, n)) else 0


def run(c):
    d = db.load(TU)
    c.units |= set(TU)
    enum = next((e for q, e in d.enums.items() if q.endswith('utils::encoding_type')), None)
    codes = {}
    if enum:
        codes = {x['n'].split('::')[-1]: int(x['v']) for x in enum['e']}
    want = {0: codes.get('INVALID'), 1: codes.get('ASCII_1BYTE'), 2: codes.get('UTF8_2BYTE'), 3: codes.get('UTF8_3BYTE'), 4: codes.get('UTF8_4BYTE')}
    if None in want.values():
        want = None
    for f in d.find('jogasaki::utils::detect_next_encoding'):
        if want:
            c.part('detect_next_encoding', detect, c, d, f, want)
            c.part('detect_next_encoding at every offset', detect_short, c, d, f, want)
    for f in d.find('jogasaki::utils::get_byte'):
        c.part('get_byte', sizes, c, d, f, want)
    for f in d.find('jogasaki::utils::is_continuation_byte'):
        c.part('is_continuation_byte', cont, c, d, f)
    for f in d.find('jogasaki::utils::is_valid_utf8'):
        c.part('is_valid_utf8', valid, c, d, f)
        c.part('is_valid_utf8 short', scans.unrolled, c, d, f, range(0, 6 if c.tier == 'quick' else 7), whole, LEAD, 'accepts exactly the well-formed strings', 'is_valid_utf8')


def whole(n, b):
    i = 0
    while i < n:
        k = length(n - i, b[i:])
        if not k:
            return ('ret', 0)
        i += k
    return ('ret', 1)


def detect(c, d, f, want):
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    off = ('app', 'param', ('n', f['params'][1]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    bounds_obs(c, e)
    gs = [(Guard(e, s, S, off, 4), s) for s in rs]
    bad = und = None
    k = 0
    for r, cell in cell_iter([g for g, _ in gs], MASKS, 4):
        k += 1
        hit = [(g, s) for g, s in gs if g.has(r, cell)]
        if not hit:
            bad = bad or f'no result [{fmt_cell(r, cell, 4)}]'
        n = want[length(r, [low(m) for m in cell])]
        for g, s in hit:
            doms = []
            try:
                ats = sorted(atoms_in(s.ret), key=repr) if s.ctrl is None else []
                for a in ats:
                    j = sub(a[3], off)
                    if a[2] != S or j[0] != 'i' or not 0 <= j[1] < r:
                        raise NotTransducer('result depends on ' + show(a))
                    doms.append([x for x in bits_of(cell[j[1]] & g.masks[j[1]])])
                for vals in itertools.product(*doms):
                    got = ev(s.ret, dict(zip(ats, vals))) if s.ctrl is None else s.ctrl[0]
                    if got != n:
                        msg = f'classified as {got} instead of {n} [{fmt_cell(r, cell, 4)}]'
                        if g.unknown:
                            und = und or msg + ' under ' + str(g.unknown)[:100]
                        else:
                            bad = bad or msg
                        break
            except (NotTransducer, KeyError) as x:
                und = und or f'{x}'
    rule = 'classifies the character at the offset'
    (c.fail if bad else c.undecided if und else c.hold)(rule, 'detect_next_encoding', w, bad or und or f'{k} cells')
    # at or behind the end
    for s in rs:
        f2 = s.facts.copy()
        if f2.add_ge0(sub(off, slen(S)), e.ranges) and not f2.infeasible(e.ranges):
            ok = s.ctrl is None and s.ret == I(want[0])
            c.ob(True if ok else None, 'nothing at or behind the end', 'detect_next_encoding', w)


def detect_short(c, d, f, want):
    """all short strings and all offsets in and behind them."""
    w = where(f)
    bad = und = None
    tot = 0
    for n in range(0, 6):
        for o in list(range(n + 2)) + [2 ** 64 - 1, 2 ** 64 - 2, 2 ** 64 - 3]:
            e = engine.Engine(d, fork=600, unroll=20)
            rs = e.run(f, args=[scans.text(n), I(o)])
            c.analysed(e)

            def spec(n, b):
                return ('ret', want[length(n - o, b[o:]) if o < n else 0])
            k, b, u = scans.check_length(c, e, rs, n, spec, LEAD)
            tot += k
            bad, und = bad or b and f'offset {o}: {b}', und or u
            for ok, fn, line, idx, size, facts in e.bounds:
                if not ok:
                    if idx[0] == 'i' and size[0] == 'i':
                        bad = bad or f'byte {idx[1]} read of a string of {size[1]} bytes'
                    else:
                        und = und or f'index {show(idx)[:60]} not bounded by {show(size)[:40]}'
    (c.fail if bad else c.undecided if und else c.hold)('classifies at every offset of a short string', 'detect_next_encoding', w, bad or und or f'{tot} cells')


def sizes(c, d, f, want):
    w = where(f)
    for n, v in (want or {}).items():
        e = engine.Engine(d)
        rs = e.run(f, args=[I(v)])
        c.analysed(e)
        ok = all(s.ctrl is None and s.ret == I(n) for s in rs) and rs
        c.ob(True if ok else False if all(s.ret is not None and s.ret[0] == 'i' for s in rs) else None, 'size of a classified character', str(n), w, ' '.join(show(s.ret) for s in rs))


def cont(c, d, f):
    e = engine.Engine(d)
    rs = e.run(f)
    c.analysed(e)
    a = ('app', 'param', ('n', f['params'][0]['n']))
    bad = und = None
    for x in range(256):
        e = engine.Engine(d)
        rs = e.run(f, args=[I(x)])
        for s in rs:
            if s.ret is None or s.ret[0] != 'i':
                und = und or f'result for {x:#04x}'
            elif s.ret[1] != int(0x80 <= x <= 0xbf):
                bad = bad or f'{x:#04x} is {"" if s.ret[1] else "not "}taken for a continuation byte'
    (c.fail if bad else c.undecided if und else c.hold)('continuation bytes', 'is_continuation_byte', where(f), bad or und or '256 bytes')


def valid(c, d, f):
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    ls = find_loops(rs)
    if len(ls) != 1:
        c.undecided('scan', 'is_valid_utf8', w, f'{len(ls)} scanning loops')
        return
    L = ls[0]
    sc = Scan(e, rs, L, S, 4)
    bounds_obs(c, e, pins=[(sc.cur, sc.entry_cursor())] if sc.cur_slot is not None else ())
    c.ob(True if sc.entry_cursor() == ZERO else None, 'starts at the first byte', 'is_valid_utf8', w)

    def spec(r, b):
        n = length(r, b)
        return ('next', n, []) if n else ('leave', lambda t: t.ret == FALSE, 'false')
    check_scan(c, sc, 'is_valid_utf8', w, spec, MASKS)
    inner = {id(b) for b in L.leaves}
    for s in rs:
        if s.ret not in (TRUE, FALSE):
            c.undecided('result', 'is_valid_utf8', w, show(s.ret)[:80] if s.ret else '')
