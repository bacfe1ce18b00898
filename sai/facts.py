"""Per-path facts: byte masks, linear (polyhedral) facts, finite value sets and opaque booleans."""
from math import gcd
from .terms import *

ALL = (1 << 256) - 1
MAXC = 400


def fm_infeasible(cons):
    """True if the system of  sum(c*x)+k >= 0  has no rational solution (Fourier-Motzkin, bounded)."""
    cons = [(dict(d), k) for d, k in cons]
    while True:
        for d, k in cons:
            if not d and k < 0:
                return True
        cons = [(d, k) for d, k in cons if d]
        if not cons:
            return False
        # choose variable with the fewest pos*neg products
        cnt = {}
        for d, k in cons:
            for a, c in d.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + (c > 0), n + (c < 0))
        v = min(cnt, key=lambda a: cnt[a][0] * cnt[a][1])
        pos = [(d, k) for d, k in cons if d.get(v, 0) > 0]
        neg = [(d, k) for d, k in cons if d.get(v, 0) < 0]
        rest = [(d, k) for d, k in cons if v not in d]
        if len(pos) * len(neg) + len(rest) > MAXC:
            return False
        # of parallel constraints only the tightest matters
        new = {}
        for d, k in rest:
            key = frozenset(d.items())
            if key not in new or new[key][1] > k:
                new[key] = (d, k)
        for dp, kp in pos:
            for dn, kn in neg:
                cp, cn = dp[v], -dn[v]
                d = {}
                for a, c in dp.items():
                    if a != v:
                        d[a] = d.get(a, 0) + c * cn
                for a, c in dn.items():
                    if a != v:
                        d[a] = d.get(a, 0) + c * cp
                d = {a: c for a, c in d.items() if c}
                k = kp * cn + kn * cp
                if not d:
                    if k < 0:
                        return True
                    continue
                g = gcd(*d.values())
                if g > 1:
                    d = {a: c // g for a, c in d.items()}
                    k = k // g
                key = frozenset(d.items())
                if key not in new or new[key][1] > k:
                    new[key] = (d, k)
        cons = list(new.values())


class Facts:
    __slots__ = ('lin', 'neq', 'bools', 'bytes', 'sets')

    def __init__(self):
        self.lin = ()      # tuple of linear terms L, meaning L >= 0
        self.neq = ()      # tuple of linear terms L, meaning L != 0
        self.bools = {}    # term -> bool
        self.bytes = {}    # atom -> mask
        self.sets = {}     # term -> (bool positive, frozenset)

    def copy(self):
        f = Facts()
        f.lin, f.neq = self.lin, self.neq
        f.bools = dict(self.bools)
        f.bytes = dict(self.bytes)
        f.sets = dict(self.sets)
        return f

    def same(self, o):
        return (self.lin, self.neq, self.bools, self.bytes, self.sets) == (o.lin, o.neq, o.bools, o.bytes, o.sets)

    def meet_weak(self, o):
        """facts valid on both paths (join of the abstract states)."""
        f = Facts()
        f.lin = tuple(x for x in self.lin if x in o.lin)
        f.neq = tuple(x for x in self.neq if x in o.neq)
        f.bools = {k: v for k, v in self.bools.items() if o.bools.get(k) == v}
        f.bytes = {k: v | o.bytes[k] for k, v in self.bytes.items() if k in o.bytes}
        for k, (p, s) in self.sets.items():
            if k in o.sets:
                p2, s2 = o.sets[k]
                if p and p2:
                    f.sets[k] = (True, s | s2)
                elif not p and not p2:
                    f.sets[k] = (False, s & s2)
        return f

    def conjoin(self, o, ranges):
        """add every fact of o; False when contradictory."""
        for k, v in o.bools.items():
            if self.bools.get(k, v) != v:
                return False
            self.bools[k] = v
        for a, m in o.bytes.items():
            r = self.bytes.get(a, ALL) & m
            if not r:
                return False
            self.bytes[a] = r
        for k, (p, x) in o.sets.items():
            if k in self.sets:
                p2, y = self.sets[k]
                if p and p2:
                    z = x & y
                    if not z:
                        return False
                    self.sets[k] = (True, z)
                elif p and not p2:
                    z = x - y
                    if not z:
                        return False
                    self.sets[k] = (True, z)
                elif p2:
                    z = y - x
                    if not z:
                        return False
                    self.sets[k] = (True, z)
                else:
                    self.sets[k] = (False, x | y)
            else:
                self.sets[k] = (p, x)
        for L in o.neq:
            if L not in self.neq:
                self.neq += (L,)
        for L in o.lin:
            if L not in self.lin and not self.add_ge0(L, ranges):
                return False
        return True

    def join_exact(self, o):
        """the union of the two fact sets when it is representable without loss, else None."""
        la, lb = set(self.lin), set(o.lin)
        na, nb = set(self.neq), set(o.neq)
        diff = 0
        by = {}
        amore = bmore = False   # a (b) carries constraints the other lacks
        bdiff = []
        for k in set(self.bytes) | set(o.bytes):
            x, y = self.bytes.get(k, ALL), o.bytes.get(k, ALL)
            if x != y:
                bdiff.append((k, x, y))
                if x & ~y:
                    bmore = True      # a has bytes b excludes
                if y & ~x:
                    amore = True
        booldiff = []
        for k in set(self.bools) | set(o.bools):
            x, y = self.bools.get(k), o.bools.get(k)
            if x != y:
                booldiff.append((k, x, y))
                if x is not None:
                    amore = True
                if y is not None:
                    bmore = True
        if la - lb or na - nb:
            amore = True
        if lb - la or nb - na:
            bmore = True
        for k in set(self.sets) | set(o.sets):
            if self.sets.get(k) != o.sets.get(k):
                amore = bmore = True
                diff += 2
        if not amore:
            return self     # b implies a
        if not bmore:
            return o
        lin_d = bool(la ^ lb)
        neq_d = bool(na ^ nb)
        dims = len(bdiff) + len(booldiff) + lin_d + neq_d + diff
        if dims != 1:
            return None
        f = self.copy()
        if bdiff:
            k, x, y = bdiff[0]
            if x | y == ALL:
                f.bytes.pop(k, None)
            else:
                f.bytes[k] = x | y
            return f
        if booldiff:
            k, x, y = booldiff[0]
            if x is not None and y is not None:
                f.bools.pop(k, None)
                return f
            return None
        if lin_d and len(la - lb) == 1 and len(lb - la) == 1:
            (u,), (v,) = la - lb, lb - la
            t = add(u, v)
            if t[0] == 'i' and t[1] >= -1:
                f.lin = tuple(x for x in self.lin if x != u)
                return f
        return None

    def mask(self, atom):
        return self.bytes.get(atom, ALL)

    # ---- linear
    def _base(self, extra, ranges):
        cons = []
        atoms = set()

        def put(v):
            d, k = lin_parts(v)
            cons.append((d, k))
            atoms.update(d)
        for v in self.lin:
            put(v)
        for v in extra:
            put(v)
        # relevant closure
        if len(cons) > 12:
            rel = set()
            for v in extra:
                rel |= set(lin_parts(v)[0])
            ch = True
            while ch:
                ch = False
                for d, k in cons:
                    if rel & set(d) and not set(d) <= rel:
                        rel |= set(d)
                        ch = True
            cons = [(d, k) for d, k in cons if not d or rel & set(d)]
            atoms = rel
        for a in list(atoms):
            lo, hi = self.range_of(a, ranges)
            if lo is not None:
                cons.append(({a: 1}, -lo))
            if hi is not None:
                cons.append(({a: -1}, hi))
        return cons

    def range_of(self, a, ranges):
        if a[0] == 'btab':
            m = self.mask(a[1])
            vals = [a[2][i] for i in range(256) if m >> i & 1]
            if vals:
                return min(vals), max(vals)
            return None, None
        if a[0] == 'bvec':
            lo = hi = 0
            for i, b in enumerate(a[1]):
                if isinstance(b, tuple):
                    hi |= 1 << i
                elif b:
                    lo |= 1 << i
                    hi |= 1 << i
            return lo, hi
        if a[0] == 'app':
            if a[1] == 'size' or a[1] == 'count':
                return 0, (1 << 62) - 1
            if a in self.sets and self.sets[a][0] and self.sets[a][1]:
                s = self.sets[a][1]
                return min(s), max(s)
            return ranges.get(a, (None, None))
        return ranges.get(a, (None, None))

    def proves_ge0(self, L, ranges):
        if L[0] == 'i':
            return L[1] >= 0
        if L in self.lin:
            return True
        return fm_infeasible(self._base([sub(I(-1), L)], ranges))

    def refutes_ge0(self, L, ranges):
        """L >= 0 is impossible."""
        if L[0] == 'i':
            return L[1] < 0
        return fm_infeasible(self._base([L], ranges))

    def infeasible(self, ranges):
        if fm_infeasible(self._base([], ranges)):
            return True
        for k, (pos, vals) in self.sets.items():
            vals = sorted(v for v in vals if type(v) is int)
            if k[0] == 'sel' or len(vals) != len(self.sets[k][1]) or len(vals) > 12:
                continue
            if pos:
                cases = [[sub(k, I(v)), sub(I(v), k)] for v in vals]
            else:
                ends = [None] + vals + [None]
                cases = [([sub(k, I(a + 1))] if a is not None else []) + ([sub(I(b - 1), k)] if b is not None else [])
                         for a, b in zip(ends, ends[1:]) if a is None or b is None or b - a > 1]
            if all(fm_infeasible(self._base(c, ranges)) for c in cases):
                return True
        return False

    def add_ge0(self, L, ranges):
        """conjoin; returns False when contradictory."""
        if L[0] == 'i':
            return L[1] >= 0
        # normalise by gcd-free unit handling
        if L in self.lin:
            return True
        if self.refutes_ge0(L, ranges):
            return False
        if L[0] == 'btab':
            return self.restrict_byte(L, lambda x: x >= 0)
        self.lin = self.lin + (L,)
        # propagate neq at boundary:  L>=0 and L!=0  =>  L-1>=0
        at = None
        for n in self.neq:
            if n == L or scale(n, -1) == L:
                g = sub(L, I(1))
                if self.refutes_ge0(g, ranges):
                    return False
                self.lin = self.lin + (g,)
                continue
            if at is None:
                at = set(lin_parts(L)[0])
            d = lin_parts(n)[0]
            if len(d) > 1 and at & set(d):
                p, m = self.proves_ge0(n, ranges), self.proves_ge0(scale(n, -1), ranges)
                if p and m:
                    return False
                if p or m:
                    g = sub(n if p else scale(n, -1), I(1))
                    if g not in self.lin:
                        self.lin = self.lin + (g,)
        return True

    def restrict_byte(self, bt, pred):
        a = bt[1]
        m = self.mask(a)
        r = 0
        for i in range(256):
            if m >> i & 1 and pred(bt[2][i]):
                r |= 1 << i
        if r == 0:
            return False
        if r != ALL:
            self.bytes[a] = r
        return True

    def byte_truth(self, bt, pred):
        m = self.mask(bt[1])
        t = f = False
        for i in range(256):
            if m >> i & 1:
                if pred(bt[2][i]):
                    t = True
                else:
                    f = True
        if t and not f:
            return True
        if f and not t:
            return False
        return None


def join_all(fs, limit=16):
    """fewest fact sets covering the union of fs: exact joins first, lossy ones only beyond the limit."""
    cur = []
    for f in fs:
        placed = True
        while placed:
            placed = False
            for i, g in enumerate(cur):
                j = g.join_exact(f)
                if j is not None:
                    del cur[i]
                    f = j
                    placed = True
                    break
        cur.append(f)
    if len(cur) > limit:
        join_all.lossy += 1
        w = cur[limit - 1]
        for g in cur[limit:]:
            w = w.meet_weak(g)
        cur = cur[:limit - 1] + [w]
    return cur


join_all.lossy = 0
