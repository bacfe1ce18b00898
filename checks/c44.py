"""C44: keys encode so that byte order is value order, and values are read as they were written."""
import struct
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over numbers all of whose bits are unknown; bytes in memory are followed bit by bit')
S = 'src/jogasaki/'
SRC = [S + f for f in ('kvs/writable_stream.cpp', 'kvs/readable_stream.cpp', 'kvs/coder.cpp', 'accessor/text.cpp', 'accessor/record_ref.cpp', 'accessor/const_record_ref.cpp', 'data/any.cpp', 'utils/decimal.cpp')]


def run(c):
    d = db.load([probe('keys.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/keys.cpp', *SRC}
    for ns in ('numbers', 'reals', 'texts', 'texts_again', 'octets', 'moments', 'flags', 'records', 'limits', 'decimals_positive', 'decimals_again', 'decimals_negative', 'decimals_read'):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))


OPTS = dict(only_throws=True, quiet_logs=True, char_arrays=True)


def unknown(e, k):
    """a number of k bytes none of whose bits is known."""
    out = []
    for i in range(k):
        a = ('app', 'inbyte', I(i))
        e.ranges[a] = (0, 255)
        out += [(a, j) for j in range(8)]
    return from_bits(out)


def given(k, signed):
    return lambda e, st, fr, n, base, vs: [(st, from_bits_as(to_bits(unknown(e, k), 8 * k), 8 * k, signed))]


def swapped(e, st, fr, n, base, vs):
    w = e.tinfo(n['t'])['w']
    b = to_bits(vs[0], w)
    return None if b is None else [(st, from_bits([x for i in range(w - 8, -1, -8) for x in b[i:i + 8]]))]


def as_float(e, st, fr, n, base, vs):
    return [(st, ('app', 'float_of', vs[0]))]


def place(p):
    """(array, offset) of a pointer to one of its elements, (variable, None) of a pointer to a variable."""
    if p[0] == 'ptr' and p[1][0] == 'el' and p[1][2][0] == 'i':
        return p[1][1], p[1][2][1]
    return (p[1], None) if p[0] == 'ptr' else None


def element(e, s, p, i):
    """the bits of a byte i after the one a pointer points to."""
    if p[0] == 'ptr' and p[1][0] == 'chr':
        return to_bits(e.char_at(s, p[1][1], add(p[1][2], I(i)), 'char'), 8)
    if p[0] == 'ptr' and p[1][0] == 'lit' and i < len(p[1][1]):
        return to_bits(I(p[1][1][i]), 8)
    return to_bits(e.read(s, ('el', p[1][1], add(p[1][2], I(i)))), 8)


def copy(e, st, fr, n, base, vs):
    if vs[2][0] != 'i' or place(vs[0]) is None or vs[1][0] != 'ptr':
        return None
    k = vs[2][1]
    to, i = place(vs[0])
    s = st.copy()
    if vs[1][1][0] not in ('el', 'chr', 'lit'):
        v = e.read(s, vs[1][1])
        if v[0] == 'app' and v[1] == 'float_of':
            v = v[2]
        elif v[0] == 'f' or v[0] == 'app' and v[1] == 'nan':
            x = float('nan') if v[0] == 'app' else float(v[1])
            v = I(int.from_bytes(struct.pack('<d' if k == 8 else '<f', x), 'little'))
        bits = to_bits(v, 8 * k)
    else:
        bits = []
        for x in range(k):
            b = element(e, s, vs[1], x)
            if b is None:
                return None
            bits += b
    if bits is None:
        return None
    if i is None:
        t = e.tinfo(e.loc_type(to))
        e.write(s, to, ('app', 'float_of', from_bits(bits)) if t.get('k') == 'float' else from_bits_as(bits, 8 * k, t.get('s')), n.get('l'))
    else:
        for x in range(k):
            e.write(s, ('el', to, I(i + x)), from_bits_as(bits[8 * x:8 * x + 8], 8, True), n.get('l'))
    return [(s, vs[0])]


def allocate(e, st, fr, n, base, vs):
    """memory comes from the page of the contract."""
    f = e.db.find('probe::page::room')[0]
    return e.invoke(f, st.copy(), base, [vs[0]], n, fr)


HOOKS = {'boost::container::pmr::memory_resource::allocate': allocate, 'std::numeric_limits::quiet_NaN': lambda e, st, fr, n, base, vs: [(st, ('f', 'nan'))], 'probe::any_int1': given(1, True), 'probe::any_int2': given(2, True), 'probe::any_int4': given(4, True), 'probe::any_int8': given(8, True),
         'probe::raw1': given(1, False), 'probe::raw2': given(2, False), 'probe::raw4': given(4, False), 'probe::raw8': given(8, False),
         'probe::float4_of': as_float, 'probe::float8_of': as_float, **{'boost::endian::' + x: swapped for x in ('native_to_big', 'big_to_native', 'endian_reverse')}, 'memcpy': copy, 'std::memcpy': copy}
