"""C05: Base64 coding in both directions and the validity test."""
import itertools
from sai import db, engine
from sai.check import where
from sai.terms import *
from sai.transducer import *
import scans

TU = ['src/jogasaki/utils/base64_utils.cpp']
FINISH = dict(floor=0.2, minimum=1, explanation='abstract interpretation with bit provenance: for every length up to the bound, each output character (byte) is a function of the bits of the input bytes (characters) it is '
              'made of, evaluated on all their values; the validity test is compared on every short text by classes of characters, on longer texts with one or two deviating characters, and step by step on text of any length')
ALPHA = b'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/'
SET = sum(1 << x for x in ALPHA)
PAD = 1 << ord('=')
OTHER = scans.ALL & ~SET & ~PAD
INDEX = {x: i for i, x in enumerate(ALPHA)}


def run(c):
    d = db.load(TU)
    c.units |= set(TU)
    thorough = c.tier != 'quick'
    for f in d.find('jogasaki::utils::encode_base64'):
        c.part('encode_base64', encode, c, d, f, list(range(0, 50)) + [95, 96, 97] + (list(range(98, 200)) if thorough else []))
    for f in d.find('jogasaki::utils::decode_base64'):
        c.part('decode_base64', decode, c, d, f, list(range(0, 50)) + [95, 96, 97] + (list(range(98, 200)) if thorough else []))
    for f in d.find('jogasaki::utils::is_base64'):
        c.part('is_base64 short', scans.unrolled, c, d, f, range(0, 9), valid, [SET, PAD], 'accepts exactly complete padded groups', 'is_base64')
        c.part('is_base64 long', long_texts, c, d, f)
        c.part('is_base64', step, c, d, f)


def rel(v, base):
    """the term with the input positions counted from base."""
    if not isinstance(v, tuple):
        return v
    if v[:3] == ('app', 'at', scans.NAME) and v[3][0] == 'i':
        return at(scans.NAME, I(v[3][1] - base))
    if v[0] == 'btab':
        return ('btab', rel(v[1], base), v[2])
    return tuple(rel(x, base) if isinstance(x, tuple) else x for x in v)


def check(pieces, want, group, width, masks, cache):
    """compare the output with want(k, values of the group's input units) for every value; None or a message."""
    for k, p in enumerate(pieces):
        if p[0] == 's':
            raise NotTransducer('output piece ' + show(p[1])[:100])
        g = k // group
        base = g * width
        ms = tuple(masks[base:base + width])
        v = rel(p[1], base) if p[0] == 'f' else p[1]
        key = (k % group, v, ms)
        if key not in cache:
            cache[key] = one(k % group, p[0], v, ms, want, base)
        if cache[key]:
            return f'output position {k}: {cache[key]}'
    return None


def one(j, kind, v, ms, want, base):
    used = sorted(want[j][0])
    for a in atoms_in(v) if kind == 'f' else ():
        if not (a[0] == 'app' and a[1] == 'at' and a[2] == scans.NAME and a[3][0] == 'i'):
            raise NotTransducer('output depends on ' + show(a)[:100])
        i = a[3][1]
        if i not in used:
            if not 0 <= i < len(ms):
                return f'depends on the input at {base + i}'
            used.append(i)
    used = [i for i in used if i < len(ms)]
    doms = [list(bits_of(ms[i])) for i in used]
    tot = 1
    for x in doms:
        tot *= len(x)
    if tot > 1 << 17:
        # more inputs than the value is allowed to depend on: every other one held at a few values
        doms = [x if i in want[j][0] else x[:1] + x[-1:] for i, x in zip(used, doms)]
    for vals in itertools.product(*doms):
        env = {at(scans.NAME, I(i)): x for i, x in zip(used, vals)}
        got = v if kind == 'c' else ev(v, env) & 255
        exp = want[j][1](dict(zip(used, vals)))
        if got != exp:
            return f'{got:#04x} instead of {exp:#04x} for input ' + ' '.join(f'[{base + i}]={x:#04x}' for i, x in zip(used, vals))
    return None


WANT_ENC = [({0}, lambda b: ALPHA[b[0] >> 2]), ({0, 1}, lambda b: ALPHA[(b[0] & 3) << 4 | b.get(1, 0) >> 4]), ({1, 2}, lambda b: ALPHA[(b[1] & 15) << 2 | b.get(2, 0) >> 6] if 1 in b else 61),
            ({2}, lambda b: ALPHA[b[2] & 63] if 2 in b else 61)]
WANT_DEC = [({0, 1}, lambda c: (INDEX[c[0]] << 2 | INDEX[c[1]] >> 4) & 255), ({1, 2}, lambda c: (INDEX[c[1]] << 4 | INDEX[c[2]] >> 2) & 255), ({2, 3}, lambda c: (INDEX[c[2]] << 6 | INDEX[c[3]]) & 255)]


def coded(c, d, f, lengths, units, masks_of, out_len, want, group, width, rule):
    w = where(f)
    n_ = f['q'].split('::')[-1]
    bad = und = None
    cache = {}
    k = 0
    for n in lengths:
        m = units(n)
        masks = masks_of(n)

        def setup(st):
            for i, x in enumerate(masks):
                if x != scans.ALL:
                    st.facts.bytes[at(scans.NAME, I(i))] = x
        try:
            e = engine.Engine(d, fork=300, unroll=4 * m + 30)
            rs = e.run(f, args=[scans.text(m)], setup=setup)
        except engine.Undecided as x:
            und = und or f'{n} bytes: {x}'
            continue
        c.analysed(e)
        k += 1
        for s in rs:
            if s.ctrl is not None and s.ctrl[0] != 'ret':
                if s.facts.bools:
                    und = und or f'may end with {s.ctrl[0]} ({n} bytes)'
                else:
                    bad = bad or f'ends with {s.ctrl[0]} ({n} bytes)'
                continue
            g = scans.G(s, scans.NAME, m)
            try:
                ps = out_pieces(s.ret, scans.NAME, ZERO)
                msg = None
                if len(ps) != out_len(n):
                    msg = f'{len(ps)} instead of {out_len(n)} units of output'
                    if any(p[0] == 's' for p in ps):
                        raise NotTransducer('output ' + show(s.ret)[:80])
                else:
                    msg = check(ps, want, group, width, [a & b for a, b in zip(g.masks, masks)], cache)
            except (NotTransducer, KeyError) as x:
                und = und or f'{n} bytes: {x}'
                continue
            if msg and g.unknown:
                und = und or f'{n} bytes: {msg} under {str(g.unknown)[:80]}'
            elif msg:
                bad = bad or f'{n} bytes: {msg}'
        for ok, fn, line, idx, size, facts in e.bounds:
            if not ok and (idx[0] != 'i' or size[0] != 'i'):
                und = und or f'index {show(idx)[:60]} not bounded by {show(size)[:40]}'
            elif not ok:
                bad = bad or f'index {show(idx)} outside {show(size)} ({n} bytes)'
        if bad:
            break
    (c.fail if bad else c.undecided if und else c.hold)(rule, n_, w, bad or und or f'{k} lengths, {len(cache)} different output positions')


def encode(c, d, f, lengths):
    coded(c, d, f, lengths, lambda n: n, lambda n: [scans.ALL] * n, lambda n: (n + 2) // 3 * 4, WANT_ENC, 4, 3, 'encodes in the standard way')


def canon(n):
    """masks of the characters of the encoding of n bytes."""
    full, t = divmod(n, 3)
    m = [SET] * (4 * full)
    if t == 1:
        m += [SET, sum(1 << x for i, x in enumerate(ALPHA) if i & 15 == 0), PAD, PAD]
    if t == 2:
        m += [SET, SET, sum(1 << x for i, x in enumerate(ALPHA) if i & 3 == 0), PAD]
    return m


def decode(c, d, f, lengths):
    coded(c, d, f, lengths, lambda n: (n + 2) // 3 * 4, canon, lambda n: n, WANT_DEC, 3, 4, 'decodes every encoded text')


# ---------------------------------------------------------------- validity
def valid(n, b):
    def cls(x):
        return 'a' if SET >> x & 1 else '=' if x == 61 else 'o'
    k = [cls(x) for x in b]
    ok = n > 0 and n % 4 == 0 and all(x == 'a' for x in k[:-2]) and (k[-2] + k[-1]) in ('aa', 'a=', '==')
    return ('ret', int(ok))


def long_texts(c, d, f):
    w = where(f)
    bad = und = None
    tot = 0
    for n in (12, 16, 17, 18, 19, 20, 40, 64):
        base = [SET] * n
        texts = [base, base[:-1] + [PAD], base[:-2] + [PAD, PAD], base[:-3] + [PAD] * 3]
        for p in range(n):
            for m in (PAD, OTHER):
                for tail in ([], [PAD], [PAD, PAD]):
                    t = base[:n - len(tail)] + tail
                    texts.append(t[:p] + [m] + t[p + 1:])
        if n > 20 and c.tier == 'quick':
            texts = texts[:4] + texts[4::7]
        for t in texts:
            tot += 1
            want = valid(n, [low(x) for x in t])[1]
            e = engine.Engine(d, fork=300, unroll=n + 10)

            def setup(st):
                for i, x in enumerate(t):
                    st.facts.bytes[at(scans.NAME, I(i))] = x
            rs = e.run(f, args=[scans.text(n)], setup=setup)
            c.analysed(e)
            for s in rs:
                msg = None
                try:
                    got = ev(s.ret, {}) if s.ctrl is None else s.ctrl[0]
                    if got != want:
                        msg = f'result {got} instead of {want}'
                except (NotTransducer, KeyError) as x:
                    und = und or f'{x} [{n} characters]'
                if msg and scans.G(s, scans.NAME, n).unknown:
                    und = und or msg
                elif msg:
                    dev = [f'{i}: {chr(low(x))!r}' for i, x in enumerate(t) if x != SET]
                    bad = bad or f'{msg} [{n} characters of the alphabet but for {", ".join(dev)}]'
            if bad:
                break
    (c.fail if bad else c.undecided if und else c.hold)('accepts exactly complete padded groups (longer texts)', 'is_base64', w, bad or und or f'{tot} texts')


def step(c, d, f):
    e = engine.Engine(d)
    S = ('app', 'param', ('n', f['params'][0]['n']))
    rs = e.run(f)
    c.analysed(e)
    w = where(f)
    ls = find_loops(rs)
    if len(ls) != 1:
        c.undecided('step', 'is_base64', w, f'{len(ls)} scanning loops')
        return
    L = ls[0]
    sc = Scan(e, rs, L, S, 3)
    bounds_obs(c, e, pins=[(sc.cur, sc.entry_cursor())] if sc.cur_slot is not None else ())
    c.ob(True if sc.entry_cursor() == ZERO else None, 'starts at the first character', 'is_base64', w)

    def spec(r, b):
        no = ('leave', lambda t: t.ret == FALSE, 'false')
        if SET >> b[0] & 1:
            return ('next', 1, [])
        if b[0] != 61 or r >= 3:
            return no
        return ('next', 1, []) if r == 1 or b[1] == 61 else no
    masks = [[SET, PAD]] * 3
    und = [0]

    class Quiet:
        """a step that is not refuted definitely: the bounded rules decide."""
        def __getattr__(self, k):
            return getattr(c, k)

        def fail(self, rule, *a):
            c.undecided(rule, *a)
    check_scan(Quiet(), sc, 'is_base64', w, spec, masks, rule='step')
