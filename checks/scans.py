"""Functions over one byte string, analysed per input length: loops are unrolled (the length is fixed, the bytes are
abstract: masks and bit provenance), and every end state is compared with the specification on every cell of the
partition of the inputs induced by the byte masks of the end states and of the specification."""
import itertools
from sai import engine
from sai.check import where
from sai.terms import *
from sai.transducer import *

NAME = ('app', 'param', ('n', 'S'))


def text(n, S=NAME):
    return mk_str(tuple(('chr', byte_of(at(S, I(i)), True)) for i in range(n)))


class G:
    def __init__(self, st, S, n):
        self.masks = [ALL] * n
        self.unknown = []
        for a, m in st.facts.bytes.items():
            if a[0] == 'app' and a[1] == 'at' and a[2] == S and a[3][0] == 'i' and 0 <= a[3][1] < n:
                self.masks[a[3][1]] &= m
            else:
                self.unknown.append(a)
        self.unknown += list(st.facts.bools.items())
        self.unknown += [l for l in st.facts.lin if any(not simple(a, S) for a in lin_parts(l)[0])]

    def has(self, cell):
        return all(m & c for m, c in zip(self.masks, cell))


def simple(a, S):
    return a[0] in ('btab', 'bvec')


def cells(gs, spec_masks, n, limit):
    cls = [classes([g.masks[j] for g in gs] + list(spec_masks)) for j in range(n)]
    tot = 1
    for x in cls:
        tot *= len(x)
    if tot > limit:
        return None
    return itertools.product(*cls)


def outcome(st, e, result):
    return result(e, st) if result else st.ret


def check_length(c, e, rs, n, spec, masks, result=None, S=NAME, limit=60000):
    """(number of cells, first refutation, first open point)."""
    gs = [(G(s, S, n), s) for s in rs]
    cs = cells([g for g, _ in gs], masks, n, limit)
    if cs is None:
        return 0, None, f'length {n}: too many cells'
    k, bad, und = 0, None, None
    for cell in cs:
        k += 1
        reps = [low(m) for m in cell]
        want = spec(n, reps)
        if want is None:
            continue
        hit = [(g, s) for g, s in gs if g.has(cell)]
        if not hit:
            bad = bad or f'no result for {fmt(n, cell)}'
            continue
        for g, s in hit:
            try:
                msg = agree(e, s, g, want, cell, result, S)
            except NotTransducer as x:
                und = und or f'{x} [{fmt(n, cell)}]'
                continue
            if msg:
                msg = f'{msg} [{fmt(n, cell)}]'
                if g.unknown:
                    und = und or msg + ' (under ' + str([show(u[0]) if isinstance(u, tuple) and isinstance(u[0], tuple) else show(u) for u in g.unknown])[:200] + ')'
                else:
                    bad = bad or msg
    return k, bad, und


def agree(e, s, g, want, cell, result, S):
    if s.ctrl is not None:
        return None if want == ('throw',) else f'ends with {s.ctrl[0]}'
    if want == ('throw',):
        return 'ends normally'
    if want[0] == 'ret':
        v = s.ret
        js = []
        for a in atoms_in(v):
            if not (a[0] == 'app' and a[1] == 'at' and a[2] == S and a[3][0] == 'i'):
                raise NotTransducer('result depends on ' + show(a)[:100])
            js.append(a[3][1])
        js = sorted(set(js))
        for vals in itertools.product(*[list(bits_of(cell[j] & g.masks[j])) for j in js]):
            x = ev(v, {at(S, I(j)): b for j, b in zip(js, vals)})
            if x != want[1]:
                return f'result {x} instead of {want[1]}'
        return agree_out(e, s, g, want[2], cell, result, S) if len(want) > 2 and want[2] is not None else None
    return agree_out(e, s, g, want[1], cell, result, S)


def agree_out(e, s, g, want, cell, result, S):
    v = result(e, s) if result else s.ret
    return compare_pieces(out_pieces(v, S, ZERO), want, S, ZERO, cell, g)


def fmt(n, cell):
    return f'{n} bytes: ' + ' '.join(f'[{j}] in {{{low(m):#04x}..}}' if m != ALL else f'[{j}] any' for j, m in enumerate(cell))


def unrolled(c, d, f, lengths, spec, masks, rule, key, args=(), result=None, setup=None, pos=0, fork=600, limit=60000):
    """one obligation per function (all lengths together) plus its bounds obligations."""
    w = where(f)
    bad = und = None
    tot = 0
    for n in lengths:
        e = engine.Engine(d, fork=fork, unroll=max(70, n + 4))
        a = [None] * len(f['params'])
        for i, v in enumerate(args):
            a[i] = v
        a[pos] = text(n) if not f['params'][pos]['t'].rstrip().endswith('&') else None
        st = setup
        if a[pos] is None:
            loc = ('d', NAME)
            a[pos] = ('ptr', loc)

            def st(s, n=n, loc=loc):
                s.mem[loc] = text(n)
                if setup:
                    setup(s)
        rs = e.run(f, args=a, setup=st)
        c.analysed(e)
        k, b, u = check_length(c, e, rs, n, spec, masks, result, NAME, limit)
        tot += k
        bad, und = bad or b, und or u
        for ok, fn, line, idx, size, facts in e.bounds:
            if not ok:
                dead = sub(idx, size)[0] == 'i' and sub(idx, size)[1] >= 0 or idx[0] == 'i' and idx[1] < 0
                if dead and not facts.bools:
                    bad = bad or f'index {show(idx)[:60]} outside [0, {show(size)[:40]}) with {n} bytes'
                else:
                    und = und or f'index {show(idx)[:60]} not bounded by {show(size)[:40]}'
    if bad:
        c.fail(rule, key, w, bad)
    elif und:
        c.undecided(rule, key, w, und)
    else:
        c.hold(rule, key, w, f'lengths {min(lengths)}..{max(lengths)}, {tot} cells')
    return bad is None and und is None
