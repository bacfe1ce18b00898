"""Per-iteration byte transducers: comparing one abstract transition of a scanning loop (or of a loop-free
scanner) with its specification, cell by cell over a finite partition of (remaining length, bytes ahead)."""
import itertools
from .terms import *
from .facts import ALL, Facts


class NotTransducer(Exception):
    pass


def atoms_in(v, out=None):
    """all uninterpreted atoms inside a value."""
    if out is None:
        out = set()
    if isinstance(v, tuple) and v:
        if v[0] == 'btab':
            if v[1][:2] == ('app', 'select'):
                return atoms_in(v[1], out)
            out.add(v[1])
            return out
        if v[0] == 'bvec':
            for b in v[1]:
                if isinstance(b, tuple):
                    out.add(b[0])
            return out
        if v[0] == 'app' and v[1] == 'at':
            out.add(v)
        for x in v:
            if isinstance(x, tuple):
                atoms_in(x, out)
    return out


def at(S, idx):
    return ('app', 'at', S, idx)


def state_bytes(st, S):
    """atoms at(S, i) constrained in the state."""
    return {a for a in st.facts.bytes if a[0] == 'app' and a[1] == 'at' and a[2] == S}


class Guard:
    """which inputs an abstract end state stands for, relative to a cursor."""

    def __init__(self, eng, st, S, cur, horizon, size=None):
        self.masks = [ALL] * horizon
        self.other = []
        n = size if size is not None else slen(S)
        self.unknown = []
        for a, m in st.facts.bytes.items():
            if a[0] == 'app' and a[1] == 'at' and a[2] == S:
                d = sub(a[3], cur)
                if d[0] != 'i':
                    # counted from the end: relative to the cursor when the distance is known here
                    for j in range(horizon):
                        if st.facts.proves_ge0(sub(d, I(j)), eng.ranges) and st.facts.proves_ge0(sub(I(j), d), eng.ranges):
                            d = I(j)
                            break
                if d[0] == 'i':
                    if 0 <= d[1] < horizon:
                        self.masks[d[1]] &= m
                    else:
                        self.unknown.append(('byte', d[1]))
                    continue
            self.unknown.append(a)
        for k, v in st.facts.bools.items():
            self.unknown.append((k, v))
        self.rs = set()
        rem = sub(n, cur)
        for r in range(0, horizon + 1):
            f = st.facts.copy()
            okk = f.add_ge0(sub(rem, I(r)), eng.ranges)
            if okk and r < horizon:
                okk = f.add_ge0(sub(I(r), rem), eng.ranges)
            if okk:
                self.rs.add(r)

    def has(self, r, bs):
        """can stand for inputs with remaining length r and bytes in the classes bs (masks)."""
        if r not in self.rs:
            return False
        return all(self.masks[j] & bs[j] for j in range(min(r, len(bs), len(self.masks))))


def classes(masks):
    """coarsest partition of 0..255 refining every mask; list of masks."""
    part = [ALL]
    for m in masks:
        nxt = []
        for p in part:
            a, b = p & m, p & ~m
            if a:
                nxt.append(a)
            if b:
                nxt.append(b)
        part = nxt
    return part


def bits_of(m):
    i = 0
    while m:
        if m & 1:
            yield i
        m >>= 1
        i += 1


def rng(lo, hi):
    return ((1 << (hi + 1)) - 1) & ~((1 << lo) - 1)


def low(m):
    return (m & -m).bit_length() - 1


def out_pieces(v, S, cur, prefix=None):
    """output appended in one transition, byte by byte: list of ('c', n) | ('f', value)."""
    ps = sparts(v)
    if prefix is not None:
        pp = sparts(prefix)
        if ps[:len(pp)] != pp:
            raise NotTransducer('the output is not extended at its end: ' + show(v)[:200])
        ps = ps[len(pp):]
    out = []
    for p in ps:
        if p[0] == 'lit':
            out += [('c', b) for b in p[1]]
        elif p[0] == 'chr':
            x = p[1]
            out.append(('c', x[1] & 255) if x[0] == 'i' else ('f', x))
        else:
            x = p[1]
            if x[0] == 'app' and x[1] == 'substr' and x[4][0] == 'i':
                for k in range(x[4][1]):
                    out.append(('f', btab(at(x[2], add(x[3], I(k))), lambda z: z)))
            else:
                out.append(('s', x))
    return out


def ev_text(v, env):
    x = str(ev(v[2], env)).encode() if v[0] == 'app' and v[1] == 'dec' else ev(v, env)
    if not isinstance(x, bytes):
        raise NotTransducer('not text: ' + show(v)[:100])
    return x


def trunc_(x, t):
    w = int(t[1:])
    x &= (1 << w) - 1
    return x - (1 << w) if t[0] == 'i' and x >> (w - 1) else x


def index_(s, i):
    if not 0 <= i < len(s):
        raise NotTransducer('index outside')
    return s[i]


EV2 = {'&': lambda a, b: a & b, '|': lambda a, b: a | b, '^': lambda a, b: a ^ b, '>>': lambda a, b: a >> b, 'shl': lambda a, b: a << b, '*': lambda a, b: a * b,
       '/': lambda a, b: int(a / b) if b else 0, '%': lambda a, b: abs(a) % abs(b) * (1 if a >= 0 else -1) if b else 0, 'eq': lambda a, b: int(a == b),
       'lt': lambda a, b: int(a < b), 'le': lambda a, b: int(a <= b), 'strcmp': lambda a, b: (a > b) - (a < b), 'select': index_}
EV1 = {'eq0': lambda a: int(a == 0), 'ge0': lambda a: int(a >= 0), 'not': lambda a: int(not a), 'size': len, '~': lambda a: ~a}


def onebit(b, env):
    if not isinstance(b, tuple):
        return b
    if b[0] not in env and b[0][:2] == ('app', 'bit'):
        op, x, y = BIT[b[0][2][1]]
        x, y = onebit(x, env), onebit(y, env)
        return bitval(b, x & y if op == '&' else x | y if op == '|' else x ^ y)
    return bitval(b, env[b[0]])


def ev(v, env):
    """evaluate a byte-function value under byte values for its atoms."""
    k = v[0]
    if k == 'i':
        return v[1]
    if k == 'btab':
        return v[2][env[v[1]] if v[1] in env or v[1][:2] != ('app', 'select') else ev(v[1], env) & 255]
    if k == 'bvec':
        r = 0
        for i, b in enumerate(v[1]):
            if isinstance(b, tuple):
                r |= onebit(b, env) << i
            elif b:
                r |= 1 << i
        return r
    if k == 'lin':
        return sum(c * ev(a, env) for a, c in v[1]) + v[2]
    if k == 'str':
        return b''.join(p[1] if p[0] == 'lit' else bytes([ev(p[1], env) & 255]) if p[0] == 'chr' else ev_text(p[1], env) for p in v[1])
    if k == 'seq':
        return [ev(x, env) for x in v[1]]
    if k == 'app':
        if v in env:
            return env[v]
        op = v[1]
        if op == 'trunc':
            return trunc_(ev(v[2], env), v[3][1])
        if op in EV2:
            return EV2[op](ev(v[2], env), ev(v[3], env))
        if op in EV1:
            return EV1[op](ev(v[2], env))
        if op == 'substr':
            a, b = ev(v[3], env), ev(v[4], env)
            return ev(v[2], env)[a:a + b]
        if op == 'wrapped':
            return ev(v[2], env) & ((1 << 64) - 1)
        if op == 'bit':
            return onebit((v, 0), env)
    raise NotTransducer('not a byte function: ' + show(v)[:120])


def cell_iter(guards, spec_masks, horizon):
    """cells (r, class masks for the r bytes ahead) of the partition induced by all guards and the spec."""
    cls = []
    for j in range(horizon):
        ms = [g.masks[j] for g in guards] + list(spec_masks[j] if j < len(spec_masks) else [])
        cls.append(classes(ms))
    for r in range(1, horizon + 1):
        for cell in itertools.product(*cls[:r]):
            yield r, cell


def compare_pieces(pieces, spec, S, cur, cell, guard):
    """pieces: out_pieces; spec: list of ('c', n) | ('b', j, table256).  None when equal, else a message."""
    if any(p[0] == 's' and p[1][0] == 'app' and p[1][1] == 'dec' for p in pieces):
        return compare_text(pieces, spec, S, cur, cell, guard)
    if len(pieces) != len(spec):
        return f'{len(pieces)} bytes of output instead of {len(spec)}'
    for i, (p, q) in enumerate(zip(pieces, spec)):
        if p[0] == 's':
            raise NotTransducer('output piece ' + show(p[1])[:120])
        if q[0] == 'c':
            js = []
        elif q[0] == 'b':
            js = [q[1]]
        if p[0] == 'f':
            for a in atoms_in(p[1]):
                if not (a[0] == 'app' and a[1] == 'at' and a[2] == S):
                    raise NotTransducer('output depends on ' + show(a)[:120])
                d = sub(a[3], cur)
                if d[0] != 'i':
                    raise NotTransducer('output depends on ' + show(a)[:120])
                if d[1] not in js:
                    js.append(d[1])
        doms = []
        for j in js:
            if j < 0 or j >= len(cell):
                return f'output byte {i} depends on the input byte at offset {j}, which is not there'
            doms.append(list(bits_of(cell[j] & guard.masks[j])) if j < len(guard.masks) else list(range(256)))
        tot = 1
        for d in doms:
            tot *= max(1, len(d))
        if tot > 70000:
            raise NotTransducer('output byte depends on too many input bytes')
        for vals in itertools.product(*doms):
            env = {at(S, add(cur, I(j))): x for j, x in zip(js, vals)}
            a = p[1] if p[0] == 'c' else ev(p[1], env) & 255
            b = q[1] if q[0] == 'c' else q[2][vals[js.index(q[1])]]
            if a != b:
                return f'output byte {i} is 0x{a:02x} instead of 0x{b:02x} for input ' + ' '.join(f'[{j}]=0x{x:02x}' for j, x in zip(js, vals))
    return None


def compare_text(pieces, spec, S, cur, cell, guard):
    """as compare_pieces, for output containing decimal text of byte functions."""
    js = sorted({q[1] for q in spec if q[0] == 'b'})
    for p in pieces:
        v = p[1] if p[0] == 'f' else p[1][2] if p[0] == 's' and p[1][0] == 'app' and p[1][1] == 'dec' else None
        if v is None and p[0] == 's':
            raise NotTransducer('output piece ' + show(p[1])[:120])
        for a in atoms_in(v) if v is not None else ():
            d = sub(a[3], cur) if a[0] == 'app' and a[1] == 'at' and a[2] == S else None
            if d is None or d[0] != 'i':
                raise NotTransducer('output depends on ' + show(a)[:120])
            if d[1] not in js:
                js.append(d[1])
    if len(js) > 2 or any(j < 0 or j >= len(cell) for j in js):
        raise NotTransducer('output depends on too many input bytes')
    for vals in itertools.product(*[list(bits_of(cell[j] & guard.masks[j])) if j < len(guard.masks) else list(range(256)) for j in js]):
        env = {at(S, add(cur, I(j))): x for j, x in zip(js, vals)}
        a = b''
        for p in pieces:
            a += bytes([p[1]]) if p[0] == 'c' else bytes([ev(p[1], env) & 255]) if p[0] == 'f' else str(ev(p[1][2], env)).encode()
        b = bytes(q[1] if q[0] == 'c' else q[2][vals[js.index(q[1])]] for q in spec)
        if a != b:
            return f'output is {a!r} instead of {b!r}'
    return None


def fmt_cell(r, cell, horizon):
    def cm(m):
        l = list(bits_of(m))
        runs, i = [], 0
        while i < len(l):
            j = i
            while j + 1 < len(l) and l[j + 1] == l[j] + 1:
                j += 1
            runs.append(f'{l[i]:02x}' if i == j else f'{l[i]:02x}-{l[j]:02x}')
            i = j + 1
        return ','.join(runs[:6])
    return f"{'>=' if r == horizon else ''}{r} bytes left, ahead: " + ' '.join(cm(m) for m in cell)


def find_loops(states):
    seen = []
    for s in states:
        for x in s.eff:
            if x[0] == 'loop' and all(x[1] is not y for y in seen):
                seen.append(x[1])
    return seen


def by_value(st, sl, d):
    """(state, slots, number) triples: one per value of an advance that is a table function of one input byte."""
    if d[0] == 'i':
        return [(st, sl, d)]
    m = st.facts.bytes.get(d[1], ALL)
    per = {}
    for i in bits_of(m):
        per[d[2][i]] = per.get(d[2][i], 0) | 1 << i
    out = []
    for v, mm in per.items():
        t = st.copy()
        t.facts.bytes[d[1]] = mm
        out.append((t, sl, I(v)))
    return out


class Trans:
    """one abstract transition of a scanning loop."""
    __slots__ = ('guard', 'kind', 'n', 'out', 'ret', 'st')

    def __init__(self, guard, kind, n, out, ret, st):
        self.guard, self.kind, self.n, self.out, self.ret, self.st = guard, kind, n, out, ret, st


class Scan:
    """a loop over byte string S seen as a transducer: cursor slot, output slot, transitions."""

    def __init__(self, eng, states, L, S, horizon, out_of=None):
        self.eng, self.L, self.S, self.h = eng, L, S, horizon
        self.cur_slot = None
        n = slen(S)
        if L.kind == 'rfor' and getattr(L, 'container', None) == S:
            self.cur = L.iter
            deltas = [I(1)] * len(L.ends)
        else:
            cands = []
            for k, e0 in L.entry.items():
                sym = L.head[k]
                ds = [sub(m[k], sym) if m.get(k) is not None else None for m in L.ends]
                if any(d is None or d[0] not in ('i', 'btab') for d in ds):
                    continue
                idx = set()
                for s in list(L.bodies) + list(L.exits) + list(L.breaks) + list(L.leaves):
                    idx |= {a[3] for a in state_bytes(s, S)}
                if idx and any(sub(i, sym)[0] == 'i' for i in idx) and all(sub(i, sym)[0] == 'i' or sub(i, slen(S))[0] == 'i' for i in idx):
                    cands.append((k, sym, ds))
                elif not idx and any(d != ZERO for d in ds):
                    cands.append((k, sym, ds))
            cands = [c for c in cands if any(d != ZERO for d in c[2])] or cands
            if not cands:
                raise NotTransducer('no loop-carried cursor over the input')
            self.cur_slot, self.cur, deltas = cands[0]
        self.deltas = deltas
        self.out_slot = None
        if out_of is not None:
            for k, sym in L.head.items():
                if out_of == sym or (out_of[0] == 'str' and sparts(out_of) and sparts(out_of)[0] == ('s', sym)):
                    self.out_slot = k
            if self.out_slot is None:
                raise NotTransducer('the result is not the loop-carried output: ' + show(out_of)[:200])
        self.trans = []
        for b, sl, d in [x for b, sl, d in zip(L.bodies, L.ends, deltas) for x in by_value(b, sl, d)]:
            g = Guard(eng, b, S, self.cur, horizon)
            pcs = None
            if self.out_slot is not None:
                pcs = out_pieces(sl[self.out_slot], S, self.cur, L.head[self.out_slot])
            self.trans.append(Trans(g, 'next', d[1], pcs, None, b))
        for b in L.leaves:
            self.trans.append(Trans(Guard(eng, b, S, self.cur, horizon), 'leave', None, None, b.ret, b))
        for b in L.breaks:
            self.trans.append(Trans(Guard(eng, b, S, self.cur, horizon), 'break', None, None, None, b))
        self.exit_guards = [] if L.kind == 'rfor' else [Guard(eng, b, S, self.cur, horizon) for b in L.exits]

    def entry_cursor(self):
        return ZERO if self.cur_slot is None else self.L.entry[self.cur_slot]

    def entry_out(self):
        return self.L.entry[self.out_slot]


def check_scan(c, sc, fnname, where, spec, spec_masks, rule='transition', exits_at=(0,)):
    """spec(r, reps) -> ('next', n, pieces) | ('leave', pred, text); r is capped at the horizon.
    The spec is iterated when one code transition covers several spec steps."""
    guards = [t.guard for t in sc.trans]
    cells = 0
    bad = []
    und = []
    for r, cell in cell_iter(guards, spec_masks, sc.h):
        cells += 1
        reps = [low(m) for m in cell]
        hit = [t for t in sc.trans if t.guard.has(r, cell)]
        if not hit:
            bad.append(('no transition', r, cell, 'no way through the loop body for this input'))
            continue
        for t in hit:
            try:
                msg = _cmp(t, r, cell, reps, spec, sc)
            except NotTransducer as e:
                und.append((r, cell, str(e)))
                continue
            if msg:
                if t.guard.unknown:
                    und.append((r, cell, msg + ' (under conditions the domain does not track: ' + str([show(u[0]) if isinstance(u, tuple) and isinstance(u[0], tuple) else show(u) for u in t.guard.unknown])[:200] + ')'))
                else:
                    bad.append(('wrong', r, cell, msg))
    for g in sc.exit_guards:
        extra = [r for r in g.rs if r not in exits_at]
        if extra:
            bad.append(('exit', min(extra), (), 'the scan stops with input left'))
    if bad:
        _, r, cell, msg = bad[0]
        c.fail(rule, fnname, where, f'{msg} [{fmt_cell(r, cell, sc.h)}]' + (f' (+{len(bad) - 1} more cells)' if len(bad) > 1 else ''))
    elif und:
        r, cell, msg = und[0]
        c.undecided(rule, fnname, where, f'{msg} [{fmt_cell(r, cell, sc.h)}]')
    else:
        c.hold(rule, fnname, where, f'{cells} cells, {len(sc.trans)} abstract transitions')
    return cells


def _cmp(t, r, cell, reps, spec, sc):
    if t.kind == 'break':
        raise NotTransducer('loop left by break')
    off = 0
    want = []
    while True:
        rem = r - off
        if r < sc.h and rem <= 0 and off > 0:
            break
        k = spec(min(rem, sc.h) if r < sc.h else (sc.h if off == 0 else sc.h - off), reps[off:]) if True else None
        if k is None:
            raise NotTransducer('input beyond the horizon')
        if k[0] == 'leave':
            if off:
                return 'input consumed before a required stop'
            if t.kind != 'leave':
                return f'the scan goes on where it has to end with {k[2]}'
            return None if k[1](t) else f'ends with {show(t.ret) if t.ret else None} instead of {k[2]}'
        if t.kind == 'leave':
            return f'ends with {show(t.ret) if t.ret else None} where the scan has to go on'
        want += [(p[0], p[1] + off, p[2]) if p[0] == 'b' else p for p in k[2]]
        off += k[1]
        if off >= t.n:
            break
    if t.n == 0:
        return 'no progress'
    if t.n > r:
        return f'{t.n} bytes consumed, only {r} left'
    if off != t.n:
        return f'{t.n} bytes consumed, not {off}'
    if t.out is None:
        return None
    return compare_pieces(t.out, want, sc.S, sc.cur, cell, t.guard)


def bounds_obs(c, e, rule='element access in bounds', pins=()):
    """one obligation per accessing line (all abstract states at it together).  An access that is not proved is
    refuted when, with the loop cursors at their entry values (pins), an out-of-range index is consistent with
    every fact known on the path and the path carries no condition outside the tracked fragment."""
    per = {}
    for ok, fn, line, idx, size, facts in e.bounds:
        per.setdefault((fn, line), []).append((ok, idx, size, facts))
    n = {}
    for (fn, line), l in sorted(per.items(), key=repr):
        bad = [x for x in l if not x[0]]
        n[fn] = n.get(fn, 0) + 1
        key = f'{fn} access #{n[fn]}'
        if not bad:
            c.hold(rule, key, f'line {line}', f'{len(l)} abstract accesses')
            continue
        verdict = None
        for ok, idx, size, facts in bad:
            if facts.bools:
                continue
            for g in (sub(idx, size), sub(I(-1), idx)):
                f = facts.copy()
                good = True
                for a, b in pins:
                    good = good and f.add_ge0(sub(a, b), e.ranges) and f.add_ge0(sub(b, a), e.ranges)
                if good and f.add_ge0(g, e.ranges) and not f.infeasible(e.ranges) and known_atoms(f, pins):
                    verdict = (idx, size)
        if verdict:
            c.fail(rule, key, f'line {line}', f'index {show(verdict[0])[:120]} can leave [0, {show(verdict[1])[:80]})')
        else:
            c.undecided(rule, key, f'line {line}', f'index {show(bad[0][1])[:120]} of {show(bad[0][2])[:80]} not bounded')


def known_atoms(f, pins):
    """every linear fact is about inputs and pinned cursors only."""
    pinned = {a for a, _ in pins}

    def ok(a):
        if a in pinned or a[0] in ('btab', 'bvec'):
            return True
        if a[0] == 'app' and a[1] in ('size', 'count'):
            return ok(a[2])
        if a[0] == 'app' and a[1] in ('param', 'init'):
            return True
        if a[0] == 'app' and a[1] == 'substr':
            return all(ok(x) or x[0] in ('i', 'lin') for x in a[2:])
        return False
    return all(ok(a) for l in f.lin for a in lin_parts(l)[0])
