"""Abstract values of the value-flow domain.

Values are hash-consed-by-equality Python tuples:
  ('i', n)                     integer / bool / enumerator constant
  ('lin', ((atom, c), ...), k) integer linear form  sum(c*atom) + k
  ('btab', atom, t256)         integer that is a function of ONE byte atom (table over 0..255)
  ('bvec', bits)               integer given bit by bit (0, 1, or (atom, bitno)), LSB first
  ('f', repr)                  floating constant
  ('str', parts)               byte string: concatenation of ('lit', bytes) / ('chr', v) / ('s', term)
  ('null',) ('ptr', loc)       pointers
  ('opt', v) ('nullopt',)      std::optional
  ('alt', type, v)             std::variant holding an alternative
  ('st', cls, ((f, v), ...))   class value
  ('seq', (v, ...))            fully known sequence
  ('lam', key, caps, this)     closure
  ('app', name, args...)       uninterpreted (Herbrand) application / opaque input
"""

TRUE = ('i', 1)
FALSE = ('i', 0)
ZERO = ('i', 0)
NULL = ('null',)
NULLOPT = ('nullopt',)


def I(n):
    return ('i', int(n))


def is_int(v):
    return v[0] == 'i'


def app(name, *args):
    return ('app', name) + args


# ---------------------------------------------------------------- linear forms
def lin_parts(v):
    if v[0] == 'i':
        return {}, v[1]
    if v[0] == 'lin':
        return dict(v[1]), v[2]
    if v[0] == 'btab':
        return {v: 1}, 0
    return {v: 1}, 0


def mk_lin(d, k):
    d = {a: c for a, c in d.items() if c != 0}
    if not d:
        return ('i', k)
    if k == 0 and len(d) == 1:
        (a, c), = d.items()
        if c == 1:
            return a
    return ('lin', tuple(sorted(d.items(), key=lambda x: repr(x[0]))), k)


def add(a, b, sb=1):
    da, ka = lin_parts(a)
    db, kb = lin_parts(b)
    d = dict(da)
    for t, c in db.items():
        d[t] = d.get(t, 0) + sb * c
    return mk_lin(d, ka + sb * kb)


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    d, k = lin_parts(a)
    return mk_lin({t: c * n for t, c in d.items()}, k * n)


# ---------------------------------------------------------------- byte tables / bit vectors
def btab(atom, f):
    return norm_btab(atom, tuple(f(x) for x in range(256)))


def norm_btab(atom, t):
    if all(x == t[0] for x in t):
        return ('i', t[0])
    return ('btab', atom, t)


def byte_of(atom, signed):
    """the value of a char-typed element whose raw byte is `atom`."""
    return btab(atom, (lambda x: x - 256 if x >= 128 else x) if signed else (lambda x: x))


def wrap(n, w, s):
    if w <= 0:
        return n
    n &= (1 << w) - 1
    if s and n >> (w - 1):
        n -= 1 << w
    return n


def to_bits(v, width=64):
    """bit vector of a value, or None."""
    if v[0] == 'i':
        n = v[1] & ((1 << width) - 1)
        return tuple((n >> i) & 1 for i in range(width))
    if v[0] == 'bvec':
        b = v[1]
        return tuple(b[:width]) + (0,) * (width - len(b))
    if v[0] == 'app' and v[1] == 'trunc' and v[2][0] == 'bvec':
        w = int(v[3][1][1:])
        b = to_bits(v[2], w)
        return tuple(b[:width]) + ((b[-1] if v[3][1][0] == 'i' else 0),) * (width - w)
    if v[0] == 'btab':
        t = v[2]
        out = []
        for i in range(width):
            col = [(x >> i) & 1 for x in t]
            if all(c == 0 for c in col):
                out.append(0)
                continue
            if all(c == 1 for c in col):
                out.append(1)
                continue
            for j in range(8):
                if all(col[x] == (x >> j) & 1 for x in range(256)):
                    out.append((v[1], j))
                    break
            else:
                out.append((v[1], ('m', sum(b << x for x, b in enumerate(col)))))
        return tuple(out)
    return None


def bitval(b, x):
    """value of a bit (atom, j) | (atom, ('m', set of byte values)) when the byte is x."""
    return (x >> b[1]) & 1 if not isinstance(b[1], tuple) else (b[1][1] >> x) & 1


BITS, BIT = {}, {}      # bits of their own: what they are made of, by number and the other way around


def negbit(b):
    """the complement of a bit."""
    if not isinstance(b, tuple):
        return 1 - b
    a, j = b
    m = j[1] if isinstance(j, tuple) else sum(((x >> j) & 1) << x for x in range(256))
    m ^= (1 << 256) - 1
    for k in range(8):
        if m == sum(((x >> k) & 1) << x for x in range(256)):
            return (a, k)
    return (a, ('m', m))


def from_bits(bits):
    bits = list(bits)
    while bits and bits[-1] == 0:
        bits.pop()
    if all(b in (0, 1) and not isinstance(b, tuple) for b in bits):
        return ('i', sum(b << i for i, b in enumerate(bits)))
    atoms = {b[0] for b in bits if isinstance(b, tuple)}
    if len(atoms) == 1:
        a = atoms.pop()

        def f(x):
            r = 0
            for i, b in enumerate(bits):
                if isinstance(b, tuple):
                    r |= bitval(b, x) << i
                else:
                    r |= b << i
            return r
        return btab(a, f)
    return ('bvec', tuple(bits))


def from_bits_as(bits, w, s):
    """the value of a (signed) integer type of w bits with these bits."""
    v = from_bits(bits[:w])
    if not s:
        return v
    if v[0] == 'i':
        return I(wrap(v[1], w, True))
    if v[0] == 'btab':
        return norm_btab(v[1], tuple(wrap(x, w, True) for x in v[2]))
    if len(bits) >= w and bits[w - 1] != 0:
        return ('app', 'trunc', v, ('n', f'i{w}'))
    return v


# ---------------------------------------------------------------- strings
def lit(b):
    if isinstance(b, str):
        b = b.encode('latin-1')
    return ('str', (('lit', b),)) if b else ('str', ())


def sparts(v):
    if v[0] == 'str':
        return v[1]
    return (('s', v),)


def mk_str(parts):
    out = []
    for p in parts:
        if p[0] == 'chr' and p[1][0] == 'i':
            p = ('lit', bytes([p[1][1] & 255]))
        if p[0] == 'lit':
            if not p[1]:
                continue
            if out and out[-1][0] == 'lit':
                out[-1] = ('lit', out[-1][1] + p[1])
                continue
        out.append(p)
    if len(out) == 1 and out[0][0] == 's':
        return out[0][1]
    return ('str', tuple(out))


def concat(a, b):
    return mk_str(sparts(a) + sparts(b))


def const_str(v):
    if v[0] == 'str' and all(p[0] == 'lit' for p in v[1]):
        return b''.join(p[1] for p in v[1])
    return None


def slen(v):
    if v[0] == 'str':
        r = ZERO
        for p in v[1]:
            if p[0] == 'lit':
                r = add(r, I(len(p[1])))
            elif p[0] == 'chr':
                r = add(r, I(1))
            else:
                r = add(r, slen(p[1]))
        return r
    if v[0] == 'app' and v[1] == 'substr':
        return v[4]
    if v[0] == 'app' and v[1] == 'filled':
        return v[2]
    return app('size', v)


def show(v, depth=0):
    """compact printable form for reports."""
    if not isinstance(v, tuple):
        return str(v)
    if depth > 6:
        return '...'
    d = depth + 1
    k = v[0] if v else ''
    if k == 'i':
        return str(v[1])
    if k == 'lin':
        s = ' + '.join((show(a, d) if c == 1 else f'{c}*{show(a, d)}') for a, c in v[1])
        return s + (f' + {v[2]}' if v[2] > 0 else f' - {-v[2]}' if v[2] < 0 else '')
    if k == 'btab':
        return f'byte-fn({show(v[1], d)})'
    if k == 'bvec':
        return 'bits(' + ','.join(sorted({show(b[0], d) for b in v[1] if isinstance(b, tuple)})) + ')'
    if k == 'str':
        return '"' + ''.join(p[1].decode('latin-1') if p[0] == 'lit' else '{' + show(p[1], d) + '}' for p in v[1]) + '"'
    if k == 'null':
        return 'nullptr'
    if k == 'ptr':
        return '&' + show(v[1], d)
    if k == 'opt':
        return 'optional(' + show(v[1], d) + ')'
    if k == 'nullopt':
        return 'nullopt'
    if k == 'alt':
        return f'<{v[1]}>({show(v[2], d)})'
    if k == 'st':
        return v[1].split('::')[-1] + '{' + ', '.join(f'{f}:{show(x, d)}' for f, x in v[2]) + '}'
    if k == 'seq':
        return '[' + ', '.join(show(x, d) for x in v[1]) + ']'
    if k == 'app':
        return f'{v[1]}(' + ', '.join(show(x, d) for x in v[2:]) + ')'
    if k == 'v':
        return f'{v[2]}'
    if k == 'fl':
        return f'{show(v[1], d)}.{v[2]}'
    if k == 'd':
        return f'*{show(v[1], d)}'
    if k == 'el':
        return f'{show(v[1], d)}[{show(v[2], d)}]'
    if k == 'g':
        return v[1]
    return f"{k}(" + ", ".join(show(x, d) for x in v[1:]) + ")"
