"""C06: hexadecimal text to bytes, and bytes to hexadecimal text."""
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
from common import probe
from utf8spec import ID, HEXHI, HEXLO
import scans

TU = ['src/jogasaki/utils/hex_to_octet.cpp']
FINISH = dict(floor=0.2, minimum=1, explanation='parsing: every length up to the bound, all bytes as masks and table functions of the digits; one generic step of the loop on text of any length; '
              'printing: the step of the loop for every value of the byte')
DIG = rng(0x30, 0x39) | rng(0x41, 0x46) | rng(0x61, 0x66)


def val(x):
    return int(chr(x), 16)


def run(c):
    d = db.load(TU + [probe('headers.cpp')])
    c.units |= set(TU)
    for f in d.find('jogasaki::utils::hex_to_octet'):
        c.part('hex_to_octet', parse, c, d, f)
        c.part('hex_to_octet long', long_texts, c, d, f)
        c.part('hex_to_octet step', parse_step, c, d, f)
    printer(c, d)


def parse(c, d, f):
    out = ('d', ('app', 'param', ('n', f['params'][1]['n'])))
    w = where(f)
    rule = 'parses exactly the hexadecimal texts'
    bad = und = None
    tot = 0
    import itertools
    for n, before in itertools.product(range(0, 5 if c.tier == 'quick' else 9), (b'', b'zzzzzzzzz')):
        e = engine.Engine(d, fork=600)
        rs = e.run(f, args=[scans.text(n), None], setup=lambda st: st.mem.__setitem__(out, lit(before)))
        c.analysed(e)
        gs = [(scans.G(s, scans.NAME, n), s) for s in rs]
        for cell in scans.cells([g for g, _ in gs], [DIG], n, 60000) or ():
            tot += 1
            want = int(n % 2 == 0 and all(low(m) in hexset for m in cell))
            hit = [(g, s) for g, s in gs if g.has(cell)]
            if not hit:
                bad = bad or f'no result for {scans.fmt(n, cell)}'
            for g, s in hit:
                msg = None
                try:
                    got = ev(s.ret, {}) if s.ctrl is None else s.ctrl[0]
                    if got != want:
                        msg = f'result {got} instead of {want}'
                    elif want:
                        msg = octets(e.read(s, out, 'std::string'), n, cell, g)
                except (NotTransducer, KeyError) as x:
                    und = und or f'{x} [{scans.fmt(n, cell)}]'
                if msg and g.unknown:
                    und = und or msg + str(g.unknown)[:100]
                elif msg:
                    bad = bad or f'{msg} [{scans.fmt(n, cell)}]'
        for ok, fn, line, idx, size, facts in e.bounds:
            if not ok:
                und = und or f'index {show(idx)[:60]} not bounded by {show(size)[:40]}'
    (c.fail if bad else c.undecided if und else c.hold)(rule, 'hex_to_octet', w, bad or und or f'{tot} cells')


def long_texts(c, d, f):
    """longer texts, with digits everywhere or one character that is none."""
    out = ('d', ('app', 'param', ('n', f['params'][1]['n'])))
    w = where(f)
    bad = und = None
    tot = 0
    for n in (16, 33, 64, 130) if c.tier == 'quick' else (16, 33, 64, 130, 258, 514):
        for p in [None] + (list(range(n)) if n < 64 else [0, 1, 31, 32, 63, 64, n - 2, n - 1] if n > 64 else [0, 31, 32, 62, 63]):
            masks = [DIG if k != p else scans.ALL & ~DIG for k in range(n)]

            def setup(st):
                st.mem[out] = lit(b'')
                for k in range(n):
                    st.facts.bytes[at(scans.NAME, I(k))] = masks[k]
            e = engine.Engine(d, fork=600, unroll=n + 4)
            rs = e.run(f, args=[scans.text(n), None], setup=setup)
            c.analysed(e)
            tot += 1
            want = int(n % 2 == 0 and p is None)
            for s in rs:
                msg = None
                g = scans.G(s, scans.NAME, n)
                try:
                    got = ev(s.ret, {}) if s.ctrl is None else s.ctrl[0]
                    if got != want:
                        msg = f'result {got} instead of {want}'
                    elif want:
                        msg = octets(e.read(s, out, 'std::string'), n, masks, g)
                except (NotTransducer, KeyError) as x:
                    und = und or f'{x} [{n} characters]'
                if msg and g.unknown:
                    und = und or msg + str(g.unknown)[:100]
                elif msg:
                    bad = bad or f'{msg} [{n} characters, {"all digits" if p is None else f"no digit at {p}"}]'
    (c.fail if bad else c.undecided if und else c.hold)('parses long texts', 'hex_to_octet', w, bad or und or f'{tot} texts')


hexset = {x for x in bits_of(DIG)}


def octets(v, n, cell, g):
    """the output is the bytes denoted by the digits, for every pair of digits of the cell."""
    ps = out_pieces(v, scans.NAME, ZERO)
    if len(ps) != n // 2:
        return f'{len(ps)} bytes of output instead of {n // 2}'
    for k, p in enumerate(ps):
        if p[0] == 's':
            raise NotTransducer('output piece ' + show(p[1])[:100])
        hi, lo = cell[2 * k] & g.masks[2 * k], cell[2 * k + 1] & g.masks[2 * k + 1]
        for a in bits_of(hi):
            for b in bits_of(lo):
                env = {at(scans.NAME, I(2 * k)): a, at(scans.NAME, I(2 * k + 1)): b}
                x = p[1] if p[0] == 'c' else ev(p[1], env) & 255
                if x != val(a) * 16 + val(b):
                    return f'byte {k} is {x:#04x} for the digits {chr(a)}{chr(b)}'
    return None


def parse_step(c, d, f):
    """text of any length: one generic step handles the pair of digits it stands at and moves on by one pair."""
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    out = ('d', ('app', 'param', ('n', f['params'][1]['n'])))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    rule = 'step on text of any length'
    ls = find_loops(rs)
    for L in ls:
        if out not in L.head or len(L.head) != 2 or L.breaks:
            c.undecided(rule, 'hex_to_octet', w, 'not a loop with a cursor and the output')
            return
    for L in ls:
        parse_loop(c, e, L, S, out, w, rule)


def parse_loop(c, e, L, S, out, w, rule):
    k = [x for x in L.head if x != out][0]
    i, o = L.head[k], L.head[out]
    cur = scale(i, 2)
    c.ob(True if L.entry[k] == ZERO else None, rule, 'start', w)

    def pair(s):
        return [s.facts.bytes.get(at(S, add(cur, I(j))), ALL) for j in (0, 1)]
    for b, m in zip(L.bodies, L.ends):
        v = m[out]
        hi, lo = pair(b)
        shape = v[0] == 'app' and v[1] == 'upd' and v[2] == o and v[3] == i and sub(m[k], i) == I(1)
        if not shape:
            c.undecided(rule, 'one pair gives one byte', w, show(v)[:80])
            continue
        if (hi | lo) & ~DIG:
            c.fail(rule, 'only digits are accepted', w, f'accepts {low((hi | lo) & ~DIG):#04x} as a digit')
            continue
        bad = None
        for a in bits_of(hi):
            for z in bits_of(lo):
                try:
                    x = ev(v[4], {at(S, cur): a, at(S, add(cur, I(1))): z}) & 255
                except (NotTransducer, KeyError):
                    bad = bad or ''
                    continue
                if x != val(a) * 16 + val(z):
                    bad = bad or f'{x:#04x} for the digits {chr(a)}{chr(z)}'
        c.ob(True if bad is None else None if bad == '' else False, rule, 'one pair gives its byte', w, bad or '')
    for b in L.leaves:
        hi, lo = pair(b)
        if b.ctrl is not None and b.ctrl[0] != 'ret':
            continue                                # an exception of a checked access whose absence is not shown here
        c.ob(True if b.ret == FALSE and (not hi & DIG or not lo & DIG) else None, rule, 'stops at a character that is no digit', w)
    n = ('app', '/', slen(S), I(2))
    for x in L.exits:
        f2 = x.facts.copy()
        c.ob(True if not f2.add_ge0(sub(sub(n, i), I(1)), e.ranges) or f2.infeasible(e.ranges) else None, rule, 'ends with the text', w)


# ---------------------------------------------------------------- printing
def printer(c, d):
    for f in d.find('jogasaki::utils::operator<<'):
        if 'binary_printer' not in f['params'][1]['t']:
            continue
        for lit_, hyph, n in [(l, h, n) for l in (0, 1) for h in (0, 1) for n in range(0, 4)]:
            for per in (0, 1, 2):
                c.part('binary_printer', shown, c, d, f, lit_, hyph, n, per)


def shown(c, d, f, cpp, hyph, n, per):
    e = engine.Engine(d, fork=600)
    w = where(f)
    this = ('d', ('app', 'param', ('n', f['params'][1]['n'])))
    stream = ('d', ('app', 'param', ('n', f['params'][0]['n'])))

    def setup(st):
        for k, v in (('ptr_', ('ptr', ('chr', scans.text(n), ZERO))), ('size_', I(n)), ('bytes_per_line_', I(per)), ('show_hyphen_', I(hyph)), ('cpp_literal_', I(cpp))):
            st.mem[('fl', this, k)] = v
        st.mem[('fl', stream, '$buf')] = lit(b'')
    rs = e.run(f, setup=setup)
    c.analysed(e)
    rule = 'prints every byte as two digits'
    key = f'{"literal" if cpp else "hyphens" if hyph else "plain"}, {n} bytes, {per or "all"} per line'

    def spec(n, reps):
        out = []
        for j in range(n):
            if cpp:
                out += [('b', j, ID)] if 32 <= reps[j] < 127 else [('c', x) for x in b'\\u00'] + [('b', j, HEXHI), ('b', j, HEXLO)]
                continue
            if j and hyph:
                out.append(('c', ord('-')))
            if j and per and j % per == 0:
                out.append(('c', 10))
            out += [('b', j, HEXHI), ('b', j, HEXLO)]
        return ('out', out)
    k, bad, und = scans.check_length(c, e, rs, n, spec, [rng(32, 126)], result=lambda e, s: e.read(s, ('fl', stream, '$buf'), 'std::string'))
    (c.fail if bad else c.undecided if und else c.hold)(rule, key, w, bad or und or f'{k} cells')
    for s in rs:
        if s.ctrl is None:
            c.ob(True if s.ret == ('ptr', stream) else None, 'returns the stream', key, w)
