"""RFC 3629 as byte classes (the oracle for the UTF-8 scanners)."""
from sai.transducer import rng, ALL

ID = tuple(range(256))
HEXHI = tuple(b'0123456789abcdef'[x >> 4] for x in range(256))
HEXLO = tuple(b'0123456789abcdef'[x & 15] for x in range(256))
HEXHIU = tuple(b'0123456789ABCDEF'[x >> 4] for x in range(256))
HEXLOU = tuple(b'0123456789ABCDEF'[x & 15] for x in range(256))

_LEAD = [rng(0, 0x1f), rng(0x20, 0x7e), rng(0x7f, 0x7f), rng(0x80, 0xbf), rng(0xc0, 0xc1), rng(0xc2, 0xc2), rng(0xc3, 0xdf), rng(0xe0, 0xe0),
         rng(0xe1, 0xec), rng(0xed, 0xed), rng(0xee, 0xef), rng(0xf0, 0xf0), rng(0xf1, 0xf3), rng(0xf4, 0xf4), rng(0xf5, 0xff)]
_C = [rng(0x80, 0x8f), rng(0x90, 0x9f), rng(0xa0, 0xbf)]
UTF8_MASKS = [_LEAD, _C, [rng(0x80, 0xbf)], [rng(0x80, 0xbf)]]


def utf8_len(r, b):
    """length of the well-formed sequence at the start of b (r bytes are left), 0 when ill-formed (RFC 3629)."""
    def c(j, lo=0x80, hi=0xbf):
        return r > j and lo <= b[j] <= hi
    x = b[0]
    if x <= 0x7f:
        return 1
    if 0xc2 <= x <= 0xdf:
        return 2 if c(1) else 0
    if 0xe0 <= x <= 0xef:
        lo, hi = (0xa0, 0xbf) if x == 0xe0 else (0x80, 0x9f) if x == 0xed else (0x80, 0xbf)
        return 3 if c(1, lo, hi) and c(2) else 0
    if 0xf0 <= x <= 0xf4:
        lo, hi = (0x90, 0xbf) if x == 0xf0 else (0x80, 0x8f) if x == 0xf4 else (0x80, 0xbf)
        return 4 if c(1, lo, hi) and c(2) and c(3) else 0
    return 0
