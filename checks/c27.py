"""C27: rounding, subtraction and mixing are exact."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='rounding is evaluated over bit vectors split by the positions of the highest and the lowest bit set, all other bits unknown, which covers every argument; '
              'subtraction by contracts over arbitrary elements; the mixing functions are compared with their published definitions')
W = 64


def run(c):
    d = db.load([probe('numeric.cpp')])
    c.units |= {'src/jogasaki/utils/round.h', 'src/jogasaki/utils/subtract_vectors.h', 'include/jogasaki/utils/hash_combine.h', 'include/jogasaki/utils/split_mix64.h'}
    run_contracts(c, d, 'numeric')
    for n in ('down', 'up', 'power'):
        c.part(n, rounding, c, d, n)
    c.part('hash', mixing, c, d)


def use(d, n):
    f = d.find('probe::numeric_use::' + n)
    if len(f) != 1:
        raise db.AnalysisBroken(n)
    return f[0]


def target(d, f):
    """the function of the repository the probe calls."""
    e = engine.Engine(d)
    e.run(f)
    return anchor(d, e, f)


def cells():
    """(highest bit, lowest bit, argument)"""
    yield None, None, ZERO
    for k in range(W):
        yield k, k, I(1 << k)
        for j in range(k):
            if j in (0, k - 1):
                yield k, j, I(1 << k | 1 << j)
            bits = [0] * j + [1] + [(('app', 'inbit', I(i)), 0) for i in range(j + 1, k)] + [1]
            yield k, j, from_bits(bits)


NAME = {'down': 'round_down_to_power_of_two', 'up': 'round_up_to_power_of_two', 'power': 'is_power_of_two'}


def rounding(c, d, n):
    f = use(d, n)
    bad = und = None
    cnt = 0
    for k, j, v in cells():
        if n == 'up' and k == W - 1 and j != k:
            continue        # no such power fits
        if n == 'power':
            want = I(k is not None and k == j)
        elif k is None:
            want = ZERO
        else:
            want = I(1 << (k if n == 'down' or j == k else k + 1))
        e = engine.Engine(d)
        for i in range(W):
            e.ranges[('app', 'inbit', I(i))] = (0, 1)
        for s in e.run(f, args=[v]):
            cnt += 1
            r = s.ret
            what = f'highest bit {k}, lowest bit {j}: '
            if s.ctrl is not None:
                und = und or what + f'ends with {s.ctrl[0]}'
                continue
            t = e.truth(s, e.cmp('==', r, want)) if n != 'power' else e.truth(s, e.to_bool(r)) if r is not None else None
            if n == 'power' and t is not None:
                t = t == bool(want[1])
            if t is True:
                continue
            if t is False:
                bad = bad or what + f'gives {show(r)[:60]} instead of {want[1]:#x}'
            else:
                und = und or what + f'gives {show(r)[:60]}'
        c.analysed(e)
    (c.fail if bad else c.undecided if und else c.hold)('rounding', NAME[n], target(d, f), bad or und or f'{cnt} cells of the 2^{W} arguments')


M64 = (1 << 64) - 1


def mix(x):
    """split_mix64 as published by Sebastiano Vigna."""
    x = (x + 0x9e3779b97f4a7c15) & M64
    x = ((x ^ (x >> 30)) * 0xbf58476d1ce4e5b9) & M64
    x = ((x ^ (x >> 27)) * 0x94d049bb133111eb) & M64
    return x ^ (x >> 31)


def combine(a, b):
    """boost's hash_combine, 32 bit constant, 64 bit arithmetic."""
    return a ^ ((b + 0x9e3779b9 + ((a << 6) & M64) + (a >> 2)) & M64)


def mixing(c, d):
    """constant folding of the (constexpr) functions on arguments with one bit set, all ones and mixed ones: a different constant,
    shift or operator changes the result of one of them."""
    one = [0, M64, 0x0123456789abcdef] + [1 << i for i in range(64)]
    for n, ref, args in (('mix', mix, [(x,) for x in one]), ('combine', combine, [(x, y) for x in one for y in (0, M64, 0x0123456789abcdef)] + [(0x0123456789abcdef, y) for y in one])):
        f = use(d, n)
        bad = und = None
        for a in args:
            e = engine.Engine(d)
            for s in e.run(f, args=[I(x) for x in a]):
                if s.ctrl is None and s.ret and s.ret[0] == 'i':
                    if s.ret[1] & M64 != ref(*a):
                        bad = bad or f'{", ".join(map(hex, a))} gives {s.ret[1]:#x} instead of {ref(*a):#x}'
                else:
                    und = und or f'{a}: {show(s.ret) if s.ret else s.ctrl}'
            c.analysed(e)
        (c.fail if bad else c.undecided if und else c.hold)('mixing', 'split_mix64' if n == 'mix' else 'hash_combine', target(d, f), bad or und or f'{len(args)} constant arguments')
