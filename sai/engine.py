"""Path-sensitive value-flow abstract interpreter over the resolved AST facts.

The domain is a set of disjuncts; every disjunct holds a symbolic store of Herbrand terms, linear (polyhedral)
facts, byte-class masks, the lock set and the trace of observable effects.  Repository functions are inlined,
library types are modelled, unbounded loops are analysed to a fixpoint after widening every location the body may
change (candidate linear invariants are kept only when inductive).  Nothing is executed and no solver is used.
"""
import re
from .terms import *
from .facts import join_all, Facts, ALL
from . import models


def plain(q):
    """a qualified name without template arguments."""
    out, k = '', 0
    for c in q.replace('->', '  ').replace('operator<', 'operator '):
        k += (c == '<') - (c == '>')
        if k == 0 and c != '>':
            out += c
    return out


class Undecided(Exception):
    """the abstract interpretation left its supported fragment."""


class NeedSplit(Exception):
    """a joined value is needed on its own: the state has to be split again on selector sid."""
    def __init__(self, sid, groups):
        Exception.__init__(self, f'selector {sid}')
        self.sid = sid
        self.groups = groups


class St:
    __slots__ = ('mem', 'facts', 'eff', 'locks', 'ctrl', 'ret', 'cls')

    def __init__(self):
        self.mem = {}
        self.facts = Facts()
        self.eff = ()
        self.locks = ()
        self.ctrl = None      # None | ('ret',) | ('brk',) | ('cont',) | ('throw', v) | ('abort',)
        self.ret = None
        self.cls = {}         # loc -> dynamic class type

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = self.facts.copy()
        s.eff = self.eff
        s.locks = self.locks
        s.ctrl = self.ctrl
        s.ret = self.ret
        s.cls = self.cls
        return s

    def ev(self, *e):
        self.eff = self.eff + (e,)


class Frame:
    __slots__ = ('id', 'fn', 'this', 'refs', 'capt', 'binds', 'clst', 'parent')
    _n = 0

    def __init__(self, fn, this=None, parent=None):
        Frame._n += 1
        self.id = Frame._n
        self.fn = fn
        self.this = this
        self.refs = set()
        self.capt = {}
        self.binds = {}
        self.clst = fn.get('clst') if fn else None
        self.parent = parent


class Loop:
    """summary of one widened loop."""
    def __init__(self, lid, line, kind):
        self.id = lid
        self.line = line
        self.kind = kind
        self.container = None     # value iterated by a range-for
        self.elem = None          # element value in the generic iteration
        self.cond = None
        self.entry = {}           # loc -> value at entry
        self.head = {}            # loc -> symbol at head
        self.bodies = []          # states at the end of one generic iteration (ctrl None or cont)
        self.exits = []           # states leaving through break
        self.leaves = []          # return / throw states inside the body
        self.invariants = []
        self.head_eff = 0

    def __repr__(self):
        return f'loop@{self.line}'


NO_READ = {'std::move', 'std::forward', 'std::addressof', 'std::ref', 'std::cref', 'std::lock', 'std::move_if_noexcept', 'std::as_const', 'std::launder'}


def ripple(bits, k):
    """bits + k while carries and borrows only meet known bits."""
    if bits is None:
        return None
    out, carry = [], 0
    k &= (1 << len(bits)) - 1
    for i, b in enumerate(bits):
        m = (k >> i) & 1
        if isinstance(b, tuple):
            if m + carry == 1:
                return None
            # adding 0, or 2 (which carries on)
            out.append(b)
            carry = 1 if m and carry else 0
        else:
            t = b + m + carry
            out.append(t & 1)
            carry = t >> 1
    return tuple(out)


class Engine:
    def __init__(self, db, **opt):
        self.db = db
        self.boolterms = set()
        self.ranges = {}
        self.dom = {}             # enumerator domain of opaque enumeration values
        self.enumdom = {}
        self.n = 0
        self.max_states = opt.get('max_states', 3000)
        self.max_depth = opt.get('max_depth', 14)
        self.unwinding = 0
        self.recursions = opt.get('recursions', 2)
        self.phi = opt.get('phi', False)      # join states after every statement (values become selections)
        self.raw = 0
        self.sel = {}             # selector -> facts of each alternative
        self.join_limit = opt.get('join_limit', 16)
        self.unroll = opt.get('unroll', 70)
        self.endless = []
        self.fork = opt.get('fork', 0)      # also unroll loops whose condition is undecided, while fewer than this many states are live
        self.opaque_q = set(opt.get('opaque', ())) | {'jogasaki::find_fullname', 'jogasaki::location_prefix'}
        self.inline_ext = opt.get('inline_ext', True)
        self.hooks = opt.get('hooks', {})       # qualified name -> handler(engine, st, fr, node, base, args) -> [(st, v)]
        self.throwing = opt.get('throwing', ())  # predicates: opaque callee may throw
        self.only_throws = opt.get('only_throws', False)   # exceptions come from the throws that are there, not from unknown calls
        self.quiet_logs = opt.get('quiet_logs', False)     # log sites are off: the operands of verbose logs are not looked at
        self.char_arrays = opt.get('char_arrays', False)   # the elements of arrays of characters are followed one by one
        self.track_reads = opt.get('track_reads', False)
        self.str_eqs = set()        # comparisons of texts
        self.exact = opt.get('exact', False)                # unsigned arithmetic modulo its width, remainders, addresses as numbers
        self.byte_blocks = opt.get('byte_blocks', False)    # keep allocated memory as text of symbolic length
        self.stack = []
        self.entries = []
        self.visited_fns = set()
        self.call_sites = 0
        self.gcache = {}
        self.dyn = {}             # types of objects whose fields are tracked one by one
        self.places = {}          # (constructor expression, frame) -> variable it initialises
        self.bounds = []          # (ok, fn, line, idx, size)
        self.does_end = {}
        self.unknown = {}         # names of unmodelled library calls -> count
        self.fresh_heap = 0
        self.loct = {}            # declared types of local variables

    # ------------------------------------------------------------------ helpers
    def fresh(self, tag):
        self.n += 1
        return ('app', tag, ('i', self.n))

    def tinfo(self, t):
        return self.db.types.get(t) or {}

    def strip(self, t):
        """type without reference / top-level const."""
        t = t.strip()
        while t.endswith('&'):
            t = t[:-1].strip()
        if t.startswith('const ') and not t.endswith('*'):
            t = t[6:]
        if t.endswith(' const'):
            t = t[:-6]
        return t

    def opaque_value(self, term, t):
        """register ranges for an opaque value of type t, and wrap chars as byte functions."""
        if t is None:
            return term
        ti = self.tinfo(t)
        k = ti.get('k')
        if term[0] == 'app' and 'std::chrono' in t and models.head(self.strip(t)) in ('std::chrono::time_point', 'std::chrono::duration'):
            self.ranges.setdefault(term, (None, None))
        if k == 'int':
            if ti['w'] == 8:
                return byte_of(term, ti['s'])
            w, s = ti['w'], ti['s']
            if term[0] == 'app' and term not in self.ranges:
                self.ranges[term] = ((-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1))
        elif k == 'bool':
            if term[0] == 'app':
                self.ranges.setdefault(term, (0, 1))
                self.boolterms.add(term)
        elif k == 'enum':
            if term[0] == 'app' and term not in self.dom:
                vals = self.enum_domain(t)
                if vals:
                    self.dom[term] = vals
                    self.ranges.setdefault(term, (min(vals), max(vals)))
        return term

    def enum_domain(self, t):
        q = self.strip(t)
        if q not in self.enumdom:
            e = self.db.enums.get(q)
            if e is None:
                e = next((x for x in self.db.enums.values() if x['q'] == q), None)
            self.enumdom[q] = frozenset(int(x['v']) for x in e['e']) if e and e.get('e') else None
        return self.enumdom[q]

    def setof(self, f, term):
        r = f.sets.get(term)
        if r is None and term in self.dom:
            return (True, self.dom[term])
        return r

    def rec_of(self, t):
        return self.db.recs.get(self.strip(t)) if t else None

    def is_repo_rec(self, t):
        r = self.rec_of(t)
        return r is not None

    # ------------------------------------------------------------------ memory
    def read(self, st, loc, t=None):
        v = self.read0(st, loc, t)
        if self.phi and v[0] == 'app' and v[1] == 'phi' and not self.raw:
            return self.pick(st, v)
        return v

    def read_raw(self, st, loc, t=None):
        self.raw += 1
        try:
            return self.read0(st, loc, t)
        finally:
            self.raw -= 1

    # ---- joined values: phi(sid, v0, v1, ...) with the facts of alternative i in self.sel[sid][i]
    def allowed(self, st, sid):
        s = st.facts.sets.get(('sel', sid))
        return sorted(s[1]) if s else list(range(len(self.sel[sid])))

    def pick(self, st, v):
        while v[0] == 'app' and v[1] == 'phi':
            sid = v[2][1]
            al = self.allowed(st, sid)
            vals = {}
            for i in al:
                vals.setdefault(v[3 + i], []).append(i)
            if len(vals) == 1:
                v = next(iter(vals))
                continue
            raise NeedSplit(sid, list(vals.values()))
        return v

    def restrict(self, st, sid, idxs):
        """state narrowed to alternatives idxs of selector sid, or None."""
        s = st.copy()
        cur = set(self.allowed(st, sid)) & set(idxs)
        if not cur:
            return None
        s.facts.sets[('sel', sid)] = (True, frozenset(cur))
        fs = [self.sel[sid][i] for i in sorted(cur)]
        w = fs[0]
        for f in fs[1:]:
            w = w.meet_weak(f)
        if not s.facts.conjoin(w, self.ranges):
            return None
        for k, (p, x) in list(s.facts.sets.items()):
            if k[0] == 'sel' and k[1] != sid and p and len(x) == 1:
                pass
        return s

    def find_phi(self, v, depth=0):
        if not isinstance(v, tuple) or depth > 40:
            return None
        if len(v) > 2 and v[0] == 'app' and v[1] == 'phi':
            return v
        for x in v:
            if isinstance(x, tuple):
                r = self.find_phi(x, depth + 1)
                if r is not None:
                    return r
        return None

    def settle(self, st, v):
        """v with every selection decided in st replaced."""
        if not isinstance(v, tuple) or not v:
            return v
        if v[0] == 'app' and v[1] == 'phi':
            al = self.allowed(st, v[2][1])
            vals = {v[3 + i] for i in al}
            if len(vals) == 1:
                return self.settle(st, next(iter(vals)))
            return v
        return tuple(self.settle(st, x) if isinstance(x, tuple) else x for x in v)

    def settle_top(self, st, v):
        if v[0] == 'app' and v[1] == 'phi':
            vals = {v[3 + i] for i in self.allowed(st, v[2][1])}
            if len(vals) == 1:
                return next(iter(vals))
        return v

    def cases(self, st, v, limit=4096):
        """[(state, value)] with every selection inside v decided."""
        out = []
        work = [(st, v)]
        while work:
            s, x = work.pop()
            x = self.settle(s, x)
            ph = self.find_phi(x)
            if ph is None:
                out.append((s, x))
                continue
            sid = ph[2][1]
            vals = {}
            for i in self.allowed(s, sid):
                vals.setdefault(ph[3 + i], []).append(i)
            for g in vals.values():
                s2 = self.restrict(s, sid, g)
                if s2 is not None:
                    work.append((s2, x))
            if len(work) + len(out) > limit:
                raise Undecided('too many cases of a joined value')
        return out

    def join_states(self, states):
        """one state for all normally continuing states with the same locks."""
        groups = {}
        out = []
        for s in states:
            if s.ctrl is not None:
                out.append(s)
                continue
            groups.setdefault((s.locks,), []).append(s)
        for g in groups.values():
            if len(g) == 1:
                out += g
                continue
            out.append(self.join_group_phi(g))
        return out

    def join_group_phi(self, g):
        self.n += 1
        sid = self.n
        g = [s.copy() for s in g]
        # objects kept whole in one state and field-wise in another: field-wise everywhere
        ch = True
        while ch:
            ch = False
            keys = set()
            for s in g:
                keys |= set(s.mem)
            for l in keys:
                have = [s for s in g if l in s.mem]
                if len(have) < len(g) and any(self.is_under(k, l) for k in keys if k != l):
                    for s in have:
                        if s.mem[l][0] in ('st',) or (s.mem[l][0] == 'app' and s.mem[l][1] == 'with'):
                            self.explode(s, l)
                            ch = True
                    if ch:
                        break
        m = g[0].copy()
        keys = []
        for s in g:
            for l in s.mem:
                if l not in m.mem or l in g[0].mem:
                    pass
        allk = {}
        for s in g:
            for l in s.mem:
                allk[l] = True
        for l in allk:
            vals = []
            for s in g:
                v = s.mem.get(l)
                if v is None:
                    if self.root(l)[0] == 't' or l[0] in ('base', 'cur'):
                        v = next(x.mem[l] for x in g if l in x.mem)
                    elif l[0] == 'fl' and l[2][0] == '$':
                        v = FALSE
                    elif l[0] == 'fl' and s.mem.get(('fl', l[1], '$new')) == TRUE:
                        v = ('app', 'absent')
                    else:
                        v = self.read_raw(s, l)
                vals.append(v)
            if all(v == vals[0] for v in vals):
                m.mem[l] = vals[0]
            else:
                m.mem[l] = ('app', 'phi', ('i', sid)) + tuple(vals)
        w = g[0].facts
        for s in g[1:]:
            w = w.meet_weak(s.facts)
        m.facts = w
        self.sel[sid] = [s.facts for s in g]
        p = g[0].eff
        for s in g[1:]:
            k = 0
            while k < len(p) and k < len(s.eff) and p[k] == s.eff[k]:
                k += 1
            p = p[:k]
        tails = tuple(s.eff[len(p):] for s in g)
        m.eff = p if all(not t for t in tails) else p + (('alt', sid, tails),)
        return m
    def read0(self, st, loc, t=None):
        v = st.mem.get(loc)
        if v is not None:
            return v
        if t is not None and loc[0] not in ('chr',):
            r = self.rec_of(t)
            if r is not None and r.get('union') and self.byte_blocks and self.parent_value(st, loc) is None:
                act = [f for f in r['fields'] if ('fl', loc, f['n']) in st.mem or self.has_subs(st, ('fl', loc, f['n']))]
                if len(act) == 1:
                    return ('st', r['t'], ((act[0]['n'], self.read_raw(st, ('fl', loc, act[0]['n']), act[0]['t'])),))
            if r is not None and not r.get('union') and self.strip(t) not in models.VALUE_TYPES:
                # a composite: assemble from its fields
                if self.parent_value(st, loc) is None:
                    fs = tuple((f['n'], self.read_raw(st, ('fl', loc, f['n']), f['t'])) for f, _ in self.db.all_fields(r['t']))
                    return ('st', r['t'], fs)
        k = loc[0]
        if k == 'fl':
            pv = self.parent_value(st, loc)
            if pv is not None:
                return self.proj(st, pv, loc[2], t)
            subs = self.has_subs(st, loc)
            if not subs and loc[2][:1] != '$' and st.mem.get(('fl', loc[1], '$new')) == TRUE:
                return ('app', 'absent')
            base = self.opaque_value(('app', 'init', loc), t)
            if subs:
                return self.with_subs(st, loc, base)
            return base
        if k == 'el':
            cv = self.read(st, loc[1])
            return self.select(st, cv, loc[2], t)
        if k == 'chr':
            return self.char_at(st, loc[1], loc[2], t)
        if k == 'lit':
            return lit(loc[1])
        if k == 'g':
            g = self.db.globals.get(loc[1])
            if g is not None and (g.get('cx') or g.get('const')) and g.get('init') is not None:
                return self.global_value(st, loc[1], g)
            return self.opaque_value(('app', 'init', loc), t)
        if k == 'd':
            base = self.opaque_value(('app', 'init', loc), t)
            if self.has_subs(st, loc):
                return self.with_subs(st, loc, base)
            return base
        base = self.opaque_value(('app', 'init', loc), t)
        if self.has_subs(st, loc):
            return self.with_subs(st, loc, base)
        return base

    def has_subs(self, st, loc):
        for l in st.mem:
            if l[0] == 'fl' and l[1] == loc:
                return True
        return False

    def with_subs(self, st, loc, base):
        fs = tuple(sorted((l[2], v) for l, v in st.mem.items() if l[0] == 'fl' and l[1] == loc))
        return ('app', 'with', base, ('st', '', fs))

    def overlaid(self, st, loc):
        """an inactive member of an anonymous union seen through the one that was written last."""
        if not self.byte_blocks or loc[0] != 'fl' or loc[1][0] != 'fl' or loc[1][2] != '':
            return None
        if loc in st.mem or self.has_subs(st, loc):
            return None
        u = self.union_with(loc[2])
        if u is None:
            return None
        for f in u['fields']:
            o = ('fl', loc[1], f['n'])
            if f['n'] != loc[2] and (o in st.mem or self.has_subs(st, o)):
                t = [g['t'] for g in u['fields'] if g['n'] == loc[2]][0]
                return ('app', 'overlay', self.read_raw(st, o, f['t']), ('n', f['t']), ('n', t), ZERO)
        return None

    def union_with(self, name):
        """the anonymous union with a member of this name."""
        l = [r for r in self.db.recs.values() if r.get('union') and '(anonymous' in r['t'] and any(f['n'] == name for f in r['fields'])]
        return l[0] if len(l) == 1 else None

    def layout(self, t):
        """(size, alignment) in bytes, or None."""
        t = self.strip(t)
        if t.endswith('*'):
            return 8, 8
        m = re.fullmatch(r'(.*?) ?\[(\d+)\]', t)
        if m:
            e = self.layout(m.group(1))
            return e and (e[0] * int(m.group(2)), e[1])
        ti = self.tinfo(t)
        if ti.get('k') in ('int', 'bool', 'enum', 'float') and ti.get('w'):
            w = max(8, ti['w']) // 8
            return w, w
        r = self.rec_of(t)
        if r is None or r.get('union'):
            return None
        fs = self.offsets(r)
        if fs is None:
            return None
        al = max([x[2] for x in fs], default=1)
        end = max([o + z for _, o, _, z, _ in fs], default=0)
        return -(-end // al) * al, al

    def offsets(self, r):
        """[(field, offset, alignment, size, type)]"""
        out = []
        at = 0
        for f, _ in self.db.all_fields(r['t']):
            l = self.layout(f['t'])
            if l is None:
                return None
            at = -(-at // l[1]) * l[1]
            out.append((f['n'], at, l[1], l[0], f['t']))
            at += l[0]
        return out

    def through(self, st, v, f):
        """field f of ('overlay', value, its type, wanted type, byte offset)."""
        _, _, val, vt, wt, off = v
        r, w = self.rec_of(vt[1]), self.rec_of(wt[1])
        a, b = r and self.offsets(r), w and self.offsets(w)
        for n, at, _, z, t in b or ():
            if n != f:
                continue
            lo = off[1] + at
            if self.rec_of(t) is not None:
                return ('app', 'overlay', val, vt, ('n', t), I(lo))
            for n2, at2, _, z2, t2 in a or ():
                if at2 <= lo and lo + z <= at2 + z2 and self.tinfo(self.strip(t2)).get('k') == 'int' and self.tinfo(self.strip(t)).get('k') in ('int', 'bool'):
                    x = self.proj(st, val, n2, t2)
                    sh = self.arith(st, '>>', x, I(8 * (lo - at2)), t2, 0, None) if lo > at2 else [(st, x)]
                    if len(sh) == 1:
                        x = sh[0][1]
                        if z < z2 and (8 * (lo - at2 + z)) < 8 * z2:
                            m = self.arith(st, '&', x, I((1 << 8 * z) - 1), t2, 0, None)
                            x = m[0][1] if len(m) == 1 else None
                        if x is not None:
                            return x
        return None

    def parent_value(self, st, loc):
        """value of the enclosing object when it is stored (or computed) as a whole."""
        p = loc[1] if loc[0] == 'fl' else None
        if p is None:
            return None
        v = st.mem.get(p)
        if v is not None:
            return v
        v = self.overlaid(st, p)
        if v is not None:
            return v
        if p[0] == 'fl':
            pv = self.parent_value(st, p)
            if pv is not None:
                return self.proj(st, pv, p[2], None)
            return None
        if p[0] in ('el', 'chr'):
            return self.read(st, p)
        if p[0] == 'g':
            g = self.db.globals.get(p[1])
            if g is not None and (g.get('cx') or g.get('const')) and g.get('init') is not None:
                return self.global_value(st, p[1], g)
        return None

    def proj(self, st, v, f, t):
        if v[0] == 'app' and v[1] == 'overlay':
            x = self.through(st, v, f)
            if x is not None:
                return x
        if self.byte_blocks and v[0] == 'st' and len(v[2]) == 1 and v[2][0][0] != f:
            u = self.union_with(f)
            if u is not None and any(g['n'] == v[2][0][0] for g in u['fields']):
                ts = {g['n']: g['t'] for g in u['fields']}
                return ('app', 'overlay', v[2][0][1], ('n', ts[v[2][0][0]]), ('n', ts[f]), ZERO)
        if f == '*':
            if v[0] == 'opt':
                return v[1]
        elif f[:1] == '<' and v[0] == 'alt':
            return v[2]
        if v[0] == 'st':
            for n, x in v[2]:
                if n == f:
                    return x
        if v[0] == 'app' and v[1] == 'with':
            for n, x in v[3][2]:
                if n == f:
                    return x
            return self.proj(st, v[2], f, t)
        if v[0] == 'app' and v[1] == 'init':
            return self.opaque_value(('app', 'init', ('fl', v[2], f)), t)
        if v[0] == 'app' and v[1] == 'default':
            return self.opaque_value(('app', 'default', f), t)
        return self.opaque_value(('app', 'fld', v, ('n', f)), t)

    def write(self, st, loc, val, line=0, log=True):
        if loc[0] == 'el':
            cont = self.read(st, loc[1])
            self.write(st, loc[1], self.store_elem(st, cont, loc[2], val), line, log)
            return
        if loc[0] == 'chr':
            base = loc[1]
            st.ev('chrwrite', base, loc[2], val, line, st.locks)
            return
        p = loc
        if loc[0] == 'fl' and loc[2][:1] in ('*', '<'):
            nv = ('opt', val) if loc[2] == '*' else ('alt', loc[2][1:-1], val)
            self.write(st, loc[1], nv, line, log)
            return
        if loc[0] == 'fl' and loc[1][0] == 'fl' and self.wrapped_parent(loc[1]):
            par = loc[1]
            self.write(st, par, self.set_field(self.read(st, par), loc[2], val), line, log)
            return
        # field of an object stored as a whole value: update functionally when the parent is an element
        if loc[0] == 'fl' and self.root_elem(loc):
            par = loc[1]
            pv = self.read(st, par)
            nv = self.set_field(pv, loc[2], val)
            self.write(st, par, nv, line, log)
            return
        if self.byte_blocks and loc[0] == 'fl':
            m = loc
            while m[0] == 'fl' and not (m[1][0] == 'fl' and m[1][2] == ''):
                m = m[1]
            if m[0] == 'fl':
                self.explode(st, m[1])
                for l in [l for l in st.mem if self.is_under(l, m[1]) and l != m and not self.is_under(l, m)]:
                    del st.mem[l]
        kill = [l for l in st.mem if self.is_under(l, loc)]
        for l in kill:
            del st.mem[l]
        # ancestor stored as whole -> explode
        if loc[0] == 'fl':
            self.explode(st, loc[1])
        st.mem[loc] = val
        if log and self.nonlocal_loc(loc):
            st.ev('wr', loc, val, line, st.locks)

    def wrapped_parent(self, loc):
        while loc[0] == 'fl':
            if loc[2][:1] in ('*', '<'):
                return True
            loc = loc[1]
        return False

    def root_elem(self, loc):
        while loc[0] == 'fl':
            loc = loc[1]
        return loc[0] in ('el',)

    def set_field(self, pv, f, val):
        if pv[0] == 'st':
            fs = [(n, val if n == f else x) for n, x in pv[2]]
            if not any(n == f for n, _ in pv[2]):
                fs.append((f, val))
            return ('st', pv[1], tuple(fs))
        if pv[0] == 'app' and pv[1] == 'with':
            fs = dict(pv[3][2])
            fs[f] = val
            return ('app', 'with', pv[2], ('st', '', tuple(sorted(fs.items()))))
        return ('app', 'with', pv, ('st', '', ((f, val),)))

    def explode(self, st, loc):
        v = st.mem.get(loc)
        if v is None:
            if loc[0] == 'fl':
                self.explode(st, loc[1])
                if loc in st.mem:
                    self.explode(st, loc)
            return
        if v[0] == 'st':
            del st.mem[loc]
            self.dyn[loc] = v[1]
            for n, x in v[2]:
                st.mem[('fl', loc, n)] = x
            return
        if v[0] == 'app' and v[1] == 'with':
            del st.mem[loc]
            st.mem[('base', loc)] = v[2]
            for n, x in v[3][2]:
                st.mem[('fl', loc, n)] = x
            # remaining fields come from the base value
            r = None
            for n, x in v[3][2]:
                pass
            return
        # opaque: known record layout?
        r = None
        if r is None:
            # keep remaining fields readable: re-materialise lazily through 'with'
            del st.mem[loc]
            st.mem[('base', loc)] = v

    def is_under(self, l, loc):
        if l[0] == 'base':
            l = l[1]
            return l == loc or self.is_under(l, loc)
        while l[0] in ('fl', 'el'):
            l = l[1]
            if l == loc:
                return True
        return False

    def nonlocal_loc(self, loc):
        while loc[0] in ('fl', 'el'):
            loc = loc[1]
        return loc[0] in ('d', 'g')

    # ---- element access on container values
    def select(self, st, cv, idx, t):
        if idx[0] == 'app' and idx[1] == 'mkey':
            if t is not None and models.head(self.strip(t)) != 'std::pair' and models.mget(self, cv, idx[2], st) == TRUE:
                return idx[2]       # a set
            return ('st', 'std::pair', (('first', idx[2]), ('second', models.mget(self, cv, idx[2], st))))
        if cv[0] == 'app' and cv[1] not in ('upd', 'push', 'filled', 'blit') and t is not None and \
                self.tinfo(self.strip(t)).get('w') == 8 and self.tinfo(self.strip(t)).get('k') == 'int':
            return self.char_at(st, cv, idx, self.strip(t))
        if cv[0] == 'ptr' and cv[1][0] == 'lit':
            return self.char_at(st, lit(cv[1][1] + b'\0'), idx, t)          # an array of characters initialised by a literal
        if cv[0] == 'seq':
            if idx[0] == 'i' and 0 <= idx[1] < len(cv[1]):
                return cv[1][idx[1]]
            if idx[0] == 'btab' and cv[1] and all(is_int(x) for x in cv[1]):
                n = len(cv[1])
                tab = idx[2]
                m = st.facts.mask(idx[1])
                if m and all(0 <= tab[i] < n for i in range(256) if m >> i & 1):
                    # values of the byte that cannot occur here repeat one that can
                    dc = cv[1][tab[(m & -m).bit_length() - 1]][1]
                    return norm_btab(idx[1], tuple(cv[1][tab[i]][1] if m >> i & 1 else dc for i in range(256)))
            if cv[1] and all(x == cv[1][0] for x in cv[1]):
                return cv[1][0]
        if cv[0] == 'str':
            return self.char_at(st, cv, idx, t)
        if cv[0] == 'app' and cv[1] == 'upd':
            _, _, base, i, x = cv
            if i == idx:
                return x
            d = sub(i, idx) if i[0] in ('i', 'lin') or idx[0] in ('i', 'lin') else None
            if d is not None and d[0] == 'i' and d[1] != 0:
                return self.select(st, base, idx, t)
            if d is None and st is not None and (st.facts.neq or st.facts.lin):
                e = self.truth(st, self.cmp('==', i, idx))
                if e is not None:
                    return x if e else self.select(st, base, idx, t)
        if cv[0] == 'app' and cv[1] == 'push':
            _, _, base, x = cv
            n = self.csize(base)
            if n == idx:
                return x
            d = sub(n, idx)
            if d[0] == 'i' and d[1] > 0:
                return self.select(st, base, idx, t)
        if cv[0] == 'app' and cv[1] == 'filled':
            return cv[3]
        return self.opaque_value(('app', 'select', cv, idx), t)

    def store_elem(self, st, cv, idx, val):
        if idx[0] == 'app' and idx[1] == 'mkey':
            return models.mput(cv, idx[2], self.proj(st, val, 'second', None))
        if cv[0] == 'seq' and idx[0] == 'i' and 0 <= idx[1] < len(cv[1]):
            l = list(cv[1])
            l[idx[1]] = val
            return ('seq', tuple(l))
        if cv[0] == 'str' and idx[0] == 'i' and self.intlike(val) and sum(len(p[1]) if p[0] == 'lit' else 1 for p in cv[1]) > idx[1] >= 0 and all(p[0] != 's' for p in cv[1]):
            us = [u for p in cv[1] for u in ([('lit', p[1][i:i + 1]) for i in range(len(p[1]))] if p[0] == 'lit' else [p])]
            us[idx[1]] = ('chr', val)
            return mk_str(tuple(us))
        if cv[0] == 'app' and cv[1] == 'upd' and cv[3] == idx:
            cv = cv[2]
        if cv[0] == 'app' and cv[1] == 'push' and self.csize(cv[2]) == idx:
            return ('app', 'push', cv[2], val)
        return ('app', 'upd', cv, idx, val)

    def csize(self, v):
        """symbolic element count of a container / string value."""
        if v[0] == 'seq':
            return I(len(v[1]))
        if v[0] == 'str':
            return slen(v)
        if v[0] == 'app':
            if v[1] == 'push':
                return add(self.csize(v[2]), I(1))
            if v[1] in ('pop', 'popf', 'erase'):
                return sub(self.csize(v[2]), I(1))
            if v[1] == 'pushf':
                return add(self.csize(v[2]), I(1))
            if v[1] == 'blit':
                return self.csize(v[2])
            if v[1] == 'cat':
                return add(self.csize(v[2]), self.csize(v[3]))
            if v[1] == 'upd':
                return self.csize(v[2])
            if v[1] == 'filled':
                return v[2]
            if v[1] == 'substr':
                return v[4]
            if v[1] == 'sized':
                return v[3]
        return app('size', v)

    def char_at(self, st, sv, idx, t=None):
        ti = self.tinfo(t) if t else {}
        signed = ti.get('s', True)
        if sv[0] == 'str':
            pos = ZERO
            for p in sv[1]:
                if p[0] == 'lit':
                    d = sub(idx, pos)
                    if d[0] == 'i' and 0 <= d[1] < len(p[1]):
                        return I(wrap(p[1][d[1]], 8, signed))
                    if d[0] == 'btab' and len(sv[1]) == 1:
                        n = len(p[1])
                        return norm_btab(d[1], tuple(wrap(p[1][x], 8, signed) if 0 <= x < n else 0 for x in d[2]))
                    pos = add(pos, I(len(p[1])))
                elif p[0] == 'chr':
                    if sub(idx, pos) == ZERO:
                        x = p[1]
                        if x[0] == 'i' and ti.get('w') == 8:
                            return I(wrap(x[1], 8, signed))
                        if x[0] == 'btab' and ti.get('w') == 8:
                            return norm_btab(x[1], tuple(wrap(y, 8, signed) for y in x[2]))
                        return x
                    pos = add(pos, I(1))
                else:
                    break
        if sv[0] == 'app' and sv[1] == 'substr':
            return self.char_at(st, sv[2], add(idx, sv[3]), t)
        if self.str_eqs:
            sv = models.same_text(self, st, sv)
        return byte_of(('app', 'at', sv, idx), signed)

    def global_value(self, st, q, g):
        if q in self.gcache:
            return self.gcache[q]
        self.gcache[q] = ('app', 'init', ('g', q))
        fr = Frame({'key': 'global', 'q': q})
        rs = self.eval(g['init'], St(), fr)
        if len(rs) == 1:
            v = rs[0][1]
            if v[0] == 'ptr' and g['init'].get('lv'):
                v = self.read(rs[0][0], v[1], g['t'])
            self.gcache[q] = v
        return self.gcache[q]

    # ------------------------------------------------------------------ conditions
    def truth(self, st, c):
        """True/False/None of a condition value under the facts of st."""
        f = st.facts
        k = c[0]
        if k == 'i':
            return c[1] != 0
        if k == 'null' or k == 'nullopt':
            return False
        if k in ('ptr', 'opt', 'lam'):
            return True
        if k == 'btab':
            return f.byte_truth(c, lambda x: x != 0)
        if k == 'app':
            o = c[1]
            if o == 'not':
                r = self.truth(st, c[2])
                return None if r is None else not r
            if o == 'ge0':
                L = c[2]
                if L[0] == 'btab':
                    return f.byte_truth(L, lambda x: x >= 0)
                if f.proves_ge0(L, self.ranges):
                    return True
                if f.refutes_ge0(L, self.ranges):
                    return False
                return None
            if o == 'eq0':
                L = c[2]
                if L[0] == 'btab':
                    return f.byte_truth(L, lambda x: x == 0)
                if L[0] == 'i':
                    return L[1] == 0
                if L in f.neq or scale(L, -1) in f.neq:
                    return False
                s = self.set_key(L)
                if s is not None:
                    term, val = s
                    if self.setof(f, term) is not None:
                        p, fs = self.setof(f, term)
                        if p and fs == frozenset([val]):
                            return True
                        if p and val not in fs:
                            return False
                        if not p and val in fs:
                            return False
                        if not p:
                            lo, hi = self.ranges.get(term, (None, None))
                            if lo is not None and hi is not None and hi - lo < 64 and lo <= val <= hi and \
                                    all(x in fs for x in range(lo, hi + 1) if x != val):
                                return True
                a = f.refutes_ge0(L, self.ranges)
                if a:
                    return False
                b = f.refutes_ge0(scale(L, -1), self.ranges)
                if b:
                    return False
                if f.proves_ge0(L, self.ranges) and f.proves_ge0(scale(L, -1), self.ranges):
                    return True
                return None
            if o == 'cmpv':
                return self.bvec_truth(st, c)
            if o == 'same':
                x, y = self.truth(st, c[2]), self.truth(st, c[3])
                return None if x is None or y is None else x == y
        b = f.bools.get(c)
        if b is not None:
            return b
        if k == 'app' and c[1] == 'eq' and f.bools:
            return self.eq_truth(f, c)
        if k in ('app', 'lin', 'bvec') and not (k == 'app' and c[1] in models.BOOL_APPS):
            # integer used as a condition: != 0
            d = self.truth_int(st, c)
            return d
        return None

    def eq_truth(self, f, c):
        """equality of two uninterpreted values by transitivity of the known equalities."""
        up, diff = {}, []

        def find(x):
            while x in up:
                x = up[x]
            return x
        for k, v in f.bools.items():
            if k[0] == 'app' and k[1] == 'eq':
                if v:
                    a, b = find(k[2]), find(k[3])
                    if a != b:
                        up[a] = b
                else:
                    diff.append((k[2], k[3]))
        a, b = find(c[2]), find(c[3])
        if a == b:
            return True
        for x, y in diff:
            if {find(x), find(y)} == {a, b}:
                return False
        if up:
            mem = lambda r: [x for x in {*up, *up.values(), r} if find(x) == r]
            if any(self.const_ne(x, y) for x in mem(a) for y in mem(b)):
                return False
        return None

    def truth_int(self, st, c):
        r = self.ranges.get(c)
        t = self.truth(st, ('app', 'eq0', c)) if not (r == (0, 1)) else None
        if t is None:
            return None
        return not t

    def set_key(self, L):
        d, k = lin_parts(L)
        if len(d) == 1:
            (a, c), = d.items()
            if c == 1:
                return a, -k
            if c == -1:
                return a, k
        return None

    def bvec_regions(self, bv, K):
        """(lt, eq) as lists of byte-constraint dicts for unsigned bits < K / == K."""
        bits = bv[1]
        # group consecutive bits by atom from the most significant
        groups = []
        for i in range(len(bits) - 1, -1, -1):
            b = bits[i]
            key = b[0] if isinstance(b, tuple) else None
            if groups and groups[-1][0] == key:
                groups[-1][1].append((i, b))
            else:
                groups.append((key, [(i, b)]))
        if K < 0:
            return [], []
        if K >> len(bits):
            return [{}], []
        lt = []
        pref = {}
        dead = False
        for key, bs in groups:
            if dead:
                break
            n = len(bs)
            hi = bs[0][0]
            kv = (K >> (hi - n + 1)) & ((1 << n) - 1)
            if key is None:
                gv = 0
                for i, b in bs:
                    gv = gv * 2 + b
                if gv < kv:
                    lt.append(dict(pref))
                    dead = True
                elif gv > kv:
                    dead = True
                continue
            ltm = eqm = 0
            for x in range(256):
                gv = 0
                for i, b in bs:
                    gv = gv * 2 + bitval(b, x)
                if gv < kv:
                    ltm |= 1 << x
                elif gv == kv:
                    eqm |= 1 << x
            if ltm:
                d = dict(pref)
                d[key] = d.get(key, ALL) & ltm
                if d[key]:
                    lt.append(d)
            pref[key] = pref.get(key, ALL) & eqm
            if not pref[key]:
                dead = True
        return lt, ([] if dead else [pref])

    def bvec_cases(self, c):
        """regions (list of dicts) where the comparison holds / does not hold."""
        _, _, op, bv, K = c
        K = K[1]
        lt, eq = self.bvec_regions(bv, K)
        # gt = complement: compute by flipping
        flip = ('bvec', bv[1])
        ltk1, eqk1 = self.bvec_regions(bv, K)
        gt = self.bvec_gt(bv, K)
        m = {'<': (lt, eq + gt), '<=': (lt + eq, gt), '>': (gt, lt + eq), '>=': (gt + eq, lt),
             '==': (eq, lt + gt), '!=': (lt + gt, eq)}
        return m[op]

    def bvec_gt(self, bv, K):
        bits = bv[1]
        if K < 0:
            return [{}]
        if K >> len(bits):
            return []
        nb = tuple((b if isinstance(b, tuple) else 1 - b) for b in bits)
        # complement trick: v > K  <=>  ~v < ~K ; handle atoms by negating bit tests
        lt = []
        pref = {}
        groups = []
        for i in range(len(bits) - 1, -1, -1):
            b = bits[i]
            key = b[0] if isinstance(b, tuple) else None
            if groups and groups[-1][0] == key:
                groups[-1][1].append((i, b))
            else:
                groups.append((key, [(i, b)]))
        for key, bs in groups:
            n = len(bs)
            hi = bs[0][0]
            kv = (K >> (hi - n + 1)) & ((1 << n) - 1)
            if key is None:
                gv = 0
                for i, b in bs:
                    gv = gv * 2 + b
                if gv > kv:
                    lt.append(dict(pref))
                    return lt
                if gv < kv:
                    return lt
                continue
            gtm = eqm = 0
            for x in range(256):
                gv = 0
                for i, b in bs:
                    gv = gv * 2 + bitval(b, x)
                if gv > kv:
                    gtm |= 1 << x
                elif gv == kv:
                    eqm |= 1 << x
            if gtm:
                d = dict(pref)
                d[key] = d.get(key, ALL) & gtm
                if d[key]:
                    lt.append(d)
            pref[key] = pref.get(key, ALL) & eqm
            if not pref[key]:
                return lt
        return lt

    def region_feasible(self, st, reg):
        for a, m in reg.items():
            if st.facts.mask(a) & m == 0:
                return False
        return True

    def bvec_truth(self, st, c):
        y, n = self.bvec_cases(c)
        fy = any(self.region_feasible(st, r) for r in y)
        fn_ = any(self.region_feasible(st, r) for r in n)
        if fy and not fn_:
            return True
        if fn_ and not fy:
            return False
        return None

    def assume(self, st, c, val):
        """states refining st in which condition c has truth value val."""
        t = self.truth(st, c)
        if t is not None:
            return [st] if t == val else []
        if c[0] == 'app' and c[1] == 'not':
            return self.assume(st, c[2], not val)
        if c[0] == 'app' and c[1] == 'same':
            return [t for v in (True, False) for s in self.assume(st, c[2], v) for t in self.assume(s, c[3], v == val)]
        if c[0] == 'app' and c[1] == 'cmpv':
            y, n = self.bvec_cases(c)
            out = []
            for reg in (y if val else n):
                if not self.region_feasible(st, reg):
                    continue
                s = st.copy()
                for a, m in reg.items():
                    r = s.facts.mask(a) & m
                    if r != ALL:
                        s.facts.bytes[a] = r
                out.append(s)
            return out
        st = st.copy()
        f = st.facts
        if c[0] == 'btab':
            return [st] if f.restrict_byte(c, (lambda x: x != 0) if val else (lambda x: x == 0)) else []
        if c[0] == 'app' and c[1] == 'ge0':
            L = c[2]
            if L[0] == 'btab':
                return [st] if f.restrict_byte(L, (lambda x: x >= 0) if val else (lambda x: x < 0)) else []
            ok = f.add_ge0(L if val else sub(I(-1), L), self.ranges)
            return [st] if ok else []
        if c[0] == 'app' and c[1] == 'eq0':
            L = c[2]
            if L[0] == 'btab':
                return [st] if f.restrict_byte(L, (lambda x: x == 0) if val else (lambda x: x != 0)) else []
            s = self.set_key(L)
            if val:
                if not f.add_ge0(L, self.ranges) or not f.add_ge0(scale(L, -1), self.ranges):
                    return []
                if s is not None:
                    p, fs = self.setof(f, s[0]) or (False, frozenset())
                    if p != (s[1] in fs):
                        return []
                    f.sets[s[0]] = (True, frozenset([s[1]]))
                if L[0] == 'app' and L[1] == '%' and L[3][0] == 'i' and f.proves_ge0(sub(L[2], I(1)), self.ranges):
                    # a positive multiple of k is at least k
                    if not f.add_ge0(sub(L[2], L[3]), self.ranges):
                        return []
            else:
                f.neq = f.neq + (L,)
                if f.proves_ge0(L, self.ranges):
                    f.lin = f.lin + (sub(L, I(1)),)
                elif f.proves_ge0(scale(L, -1), self.ranges):
                    f.lin = f.lin + (sub(scale(L, -1), I(1)),)
                if s is not None:
                    p, fs = self.setof(f, s[0]) or (False, frozenset())
                    if p:
                        fs = fs - {s[1]}
                        if not fs:
                            return []
                        f.sets[s[0]] = (True, fs)
                    else:
                        f.sets[s[0]] = (False, fs | {s[1]})
            return [st]
        if c[0] in ('lin',) or (c[0] == 'app' and c in self.ranges and self.ranges[c] != (0, 1)):
            return self.assume(st, ('app', 'eq0', c), not val)
        if val and c in self.str_eqs:
            d = sub(slen(c[2]), slen(c[3]))
            if d != ZERO and not (f.add_ge0(d, self.ranges) and f.add_ge0(scale(d, -1), self.ranges)):
                return []
        f.bools[c] = val
        if c[0] == 'app':
            # derived facts of a few library predicates
            if c[1] == 'altis' and val:
                # excludes the other alternatives
                pass
        return [st]

    def branch(self, st, c):
        """[(state, bool)]"""
        if self.sel:
            c = self.settle(st, c)
        t = self.truth(st, c)
        if t is not None:
            return [(st, t)]
        if self.sel:
            ph = self.find_phi(c)
            if ph is not None:
                self.pick(st, ph)
        return [(s, True) for s in self.assume(st, c, True)] + [(s, False) for s in self.assume(st, c, False)]

    # ------------------------------------------------------------------ comparisons
    def cmp(self, op, a, b, t=None):
        """condition value of `a op b`."""
        if op in ('>', '>='):
            return self.cmp({'>': '<', '>=': '<='}[op], b, a, t)
        if op == '!=':
            return self.neg(self.cmp('==', a, b, t))
        if self.exact and any(x[0] == 'app' and x[1] == 'IntegralToPointer' for x in (a, b)):
            x, y = (v[2] if v[0] == 'app' and v[1] == 'IntegralToPointer' else ZERO if v == NULL else None for v in (a, b))
            if x is not None and y is not None:
                return self.cmp(op, x, y)
        if op == '==' and all(x[0] == 'app' and x[1] == 'PointerToIntegral' for x in (a, b)):
            return self.cmp('==', a[2], b[2])
        if op == '==' and NULL in (a, b) and any(x[0] == 'app' and x[1] == 'fn' for x in (a, b)):
            return FALSE
        if a[0] == 'i' and b[0] == 'i':
            return I({'<': a[1] < b[1], '<=': a[1] <= b[1], '==': a[1] == b[1]}[op])
        # same-atom byte functions
        if a[0] in ('btab', 'i') and b[0] in ('btab', 'i'):
            at = {x[1] for x in (a, b) if x[0] == 'btab'}
            if len(at) == 1:
                at = at.pop()
                fa = a[2] if a[0] == 'btab' else (a[1],) * 256
                fb = b[2] if b[0] == 'btab' else (b[1],) * 256
                g = {'<': lambda x, y: x < y, '<=': lambda x, y: x <= y, '==': lambda x, y: x == y}[op]
                return norm_btab(at, tuple(int(g(x, y)) for x, y in zip(fa, fb)))
        if a[0] == 'bvec' and b[0] == 'i':
            return ('app', 'cmpv', op, a, b)
        if b[0] == 'bvec' and a[0] == 'i':
            return ('app', 'cmpv', {'<': '>', '<=': '>=', '==': '=='}[op], b, a)
        if a[0] == 'ptr' and b[0] == 'ptr' and a[1][0] == b[1][0] and a[1][0] in ('el', 'chr') and a[1][1] == b[1][1] \
                and not (a[1][2][0] == 'app' and a[1][2][1] == 'mkey') and not (b[1][2][0] == 'app' and b[1][2][1] == 'mkey'):
            return self.cmp(op, a[1][2], b[1][2])
        if op == '==':
            if a == b and a[0] not in ('f',):
                return TRUE
            for x, y in ((a, b), (b, a)):
                if y[0] == 'i' and self.boolish(x):
                    return x if y[1] == 1 else self.neg(x) if y[1] == 0 else FALSE
            if self.boolish(a) and self.boolish(b):
                if a == self.neg(b):
                    return FALSE
                return ('app', 'same', *sorted((a, b), key=repr))
            r = self.const_ne(a, b)
            if r:
                return FALSE
            if self.intlike(a) and self.intlike(b):
                L = sub(a, b)
                if L[0] == 'i':
                    return I(L[1] == 0)
                return ('app', 'eq0', self.canon_sign(L))
            x, y = sorted((a, b), key=repr)
            return ('app', 'eq', x, y)
        for x, y, g in ((a, b, lambda v: v < b[1] if op == '<' else v <= b[1]), (b, a, lambda v: a[1] < v if op == '<' else a[1] <= v)):
            if y[0] == 'i' and self.boolish(x):
                no, yes = g(0), g(1)
                return I(no) if no == yes else x if yes else self.neg(x)
        L = sub(b, a) if op == '<=' else sub(sub(b, a), I(1))
        if self.intlike(a) and self.intlike(b):
            return ('app', 'ge0', L) if L[0] != 'i' else I(L[1] >= 0)
        return ('app', 'lt' if op == '<' else 'le', a, b)

    def boolish(self, v):
        return self.is_cond(v) or v in self.boolterms

    @staticmethod
    def is_cond(v):
        return v[0] == 'app' and v[1] in models.BOOL_APPS

    def canon_sign(self, L):
        d, k = lin_parts(L)
        first = sorted(d.items(), key=lambda x: repr(x[0]))[0]
        return L if first[1] > 0 else scale(L, -1)

    def intlike(self, v):
        if v[0] in ('i', 'lin', 'btab', 'bvec'):
            return True
        if v in self.ranges:
            return True
        return v[0] == 'app' and v[1] in ('size', 'count', 'lv', 'find_pos', 'ptrdiff')

    def const_ne(self, a, b):
        ca, cb = const_str(a), const_str(b)
        if ca is not None and cb is not None:
            return ca != cb
        ks = {a[0], b[0]}
        if 'null' in ks and ks & {'ptr', 'lam'}:
            p = a if a[0] == 'ptr' else b
            return True
        if ks == {'nullopt', 'opt'}:
            return True
        if a[0] == 'ptr' and b[0] == 'ptr':
            if {a[1][0], b[1][0]} == {'mend', 'el'}:
                e = a if a[1][0] == 'el' else b
                if e[1][2][0] == 'app' and e[1][2][1] == 'mkey':
                    return True
            if a[1][0] in ('t', 'h') or b[1][0] in ('t', 'h'):
                return a[1] != b[1] and a[1][0] != 'd' and b[1][0] != 'd'
            if a[1][0] == b[1][0] == 'v':
                return a[1] != b[1]
            if a[1][0] == b[1][0] == 'el' and a[1][1][0] == b[1][1][0] == 'h':
                return a[1][1] != b[1][1]
        return False

    def neg(self, c):
        if c[0] == 'i':
            return I(c[1] == 0)
        if c[0] == 'btab':
            return norm_btab(c[1], tuple(int(x == 0) for x in c[2]))
        if c[0] == 'app' and c[1] == 'not':
            return c[2]
        if c[0] == 'app' and c[1] == 'ge0':
            return ('app', 'ge0', sub(I(-1), c[2]))
        if c[0] == 'app' and c[1] == 'cmpv':
            inv = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}
            return ('app', 'cmpv', inv[c[2]], c[3], c[4])
        if c[0] in ('ptr', 'lam', 'opt'):
            return FALSE
        if c[0] in ('null', 'nullopt'):
            return TRUE
        return ('app', 'not', c)

    # ------------------------------------------------------------------ arithmetic
    def arith(self, st, op, a, b, t, line, fr):
        """[(st, value)]"""
        ti = self.tinfo(t)
        w, s = ti.get('w', 64), ti.get('s', True)
        isint = ti.get('k') in ('int', 'bool', 'enum')
        if ti.get('k') == 'float':
            return [(st, ('app', 'f' + op, a, b))]
        if self.exact and any(x[0] == 'app' and x[1] == 'IntegralToPointer' for x in (a, b)) \
                and (ti.get('k') != 'ptr' or self.strip(t).replace('const ', '').rstrip('*').strip() in ('char', 'unsigned char', 'std::byte', 'signed char')):
            x, y = (v[2] if v[0] == 'app' and v[1] == 'IntegralToPointer' else v for v in (a, b))
            return [(st, ('app', 'IntegralToPointer', add(x, y) if op == '+' else sub(x, y)) if ti.get('k') == 'ptr' else sub(x, y))]
        if ti.get('k') == 'ptr':
            return [(st, self.ptr_add(a, b, 1 if op == '+' else -1))]
        if not isint:
            return [(st, ('app', op, a, b))]
        if self.char_arrays and op == '+' and not s and a[0] == 'bvec' and b == I(1):
            # one more: the carry goes through the bits from the lowest one
            out, carry = [], 1
            for x in to_bits(a, w):
                out.append(self.bit_of('^', x, carry))
                carry = self.bit_of('&', x, carry)
            return [(st, from_bits_as(out, w, s))]
        if a[0] == 'i' and b[0] == 'i':
            x, y = a[1], b[1]
            try:
                r = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y,
                     '/': lambda: int(x / y) if abs(x) < 2**52 and abs(y) < 2**52 else x // y,
                     '%': lambda: (abs(x) % abs(y)) * (1 if x >= 0 else -1),
                     '<<': lambda: x << y, '>>': lambda: x >> y, '&': lambda: x & y, '|': lambda: x | y,
                     '^': lambda: x ^ y}[op]()
            except (ZeroDivisionError, ValueError):
                return [(st, self.fresh('undef'))]
            return [(st, I(wrap(r, w, s)))]
        if a[0] in ('i', 'btab') and b[0] in ('i', 'btab'):
            at = {x[1] for x in (a, b) if x[0] == 'btab'}
            if len(at) == 1:
                at = at.pop()
                fa = a[2] if a[0] == 'btab' else (a[1],) * 256
                fb = b[2] if b[0] == 'btab' else (b[1],) * 256
                try:
                    g = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y,
                         '/': lambda x, y: int(x / y) if y else 0,
                         '%': lambda x, y: (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else 0,
                         '<<': lambda x, y: x << y if 0 <= y < 64 else 0, '>>': lambda x, y: x >> y if 0 <= y < 64 else 0,
                         '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y}[op]
                    return [(st, norm_btab(at, tuple(wrap(g(x, y), w, s) for x, y in zip(fa, fb))))]
                except ValueError:
                    pass
        if op in ('+', '-') and a[0] == 'bvec' and b[0] == 'i' or op == '+' and b[0] == 'bvec' and a[0] == 'i':
            x, k = (a, b[1]) if b[0] == 'i' else (b, a[1])
            bits = ripple(to_bits(x, w), k if op == '+' else -k)
            if bits is not None and (not s or bits[-1] == to_bits(x, w)[-1] == 0):
                return [(st, from_bits(bits))]
        if self.exact and op in ('/', '%', '*', '&') and not s:
            r = self.exact_mul(st, op, a, b, t)
            if r is not None:
                return r
        if op in ('+', '-'):
            r = add(a, b) if op == '+' else sub(a, b)
            if self.exact and not s:
                return self.exact_sum(st, r, w)
            # constant (lin over bvec) -> bit OR when disjoint
            if op == '+' and a[0] in ('bvec', 'btab') and b[0] in ('bvec', 'btab', 'i'):
                ba, bb = to_bits(a, w), to_bits(b, w)
                if ba and bb and all(x == 0 or y == 0 for x, y in zip(ba, bb)):
                    return [(st, from_bits(tuple(x if y == 0 else y for x, y in zip(ba, bb))))]
            if not s and op == '-' or (not s and r[0] == 'lin' and any(c < 0 for c in lin_parts(r)[0].values())):
                if st.facts.proves_ge0(r, self.ranges):
                    return [(st, r)]
                if st.facts.refutes_ge0(r, self.ranges):
                    st.ev('uwrap', r, line, fr.fn.get('q'))
                    v = ('app', 'wrapped', r)
                    self.ranges[v] = (1 << (w - 1) if w > 8 else 0, (1 << w) - 1)
                    return [(st, v)]
                out = []
                s1 = st.copy()
                if s1.facts.add_ge0(r, self.ranges):
                    out.append((s1, r))
                s2 = st.copy()
                if s2.facts.add_ge0(sub(I(-1), r), self.ranges):
                    s2.ev('uwrap', r, line, fr.fn.get('q'))
                    v = ('app', 'wrapped', r)
                    self.ranges[v] = (1 << (w - 1) if w > 8 else 0, (1 << w) - 1)
                    out.append((s2, v))
                return out
            return [(st, r)]
        if op in ('*', '/', '%') and (a[0] == 'bvec' and b[0] == 'i' or op == '*' and b[0] == 'bvec' and a[0] == 'i'):
            x, k = (a, b[1]) if b[0] == 'i' else (b, a[1])
            bits = to_bits(x, w)
            if k > 0 and k & (k - 1) == 0 and bits is not None and (not s or bits[-1] == 0):
                k = k.bit_length() - 1
                r = (0,) * k + bits[:w - k] if op == '*' else bits[k:] if op == '/' else bits[:k]
                if not s or op != '*' or all(z == 0 for z in bits[max(0, w - k - 1):]):
                    return [(st, from_bits(r))]
        if op == '*':
            if a[0] == 'i':
                return [(st, scale(b, a[1]))]
            if b[0] == 'i':
                return [(st, scale(a, b[1]))]
        if op == '<<' and b[0] == 'i' and 0 <= b[1] < 64:
            bits = to_bits(a, w)
            if bits is not None:
                return [(st, from_bits((0,) * b[1] + bits[:max(0, w - b[1])]))]
            if not s and not self.exact and b[1] < w and self.within(st, a, w - b[1]):
                return [(st, scale(a, 1 << b[1]))]
            return [(st, self.int_app('shl', a, b, t))]
        if op == '>>' and b[0] == 'i' and 0 <= b[1] < 64:
            bits = to_bits(a, w)
            if bits is not None and (not s or bits[-1] == 0):
                return [(st, from_bits(bits[b[1]:]))]
        if op in ('&', '|', '^', '>>') and isint and not s and not self.exact:
            r = self.fields_of(st, op, a, b, w)
            if r is not None:
                return [(st, r)]
        if op in ('&', '|', '>>') and isint:
            r = self.mask_of_range(st, op, *((b, a) if a[0] == 'i' and op != '>>' else (a, b)))
            if r is not None:
                return [(st, r)]
        if op in ('&', '|', '^'):
            if all(x in (ZERO, I(1)) or self.is_cond(x) or self.ranges.get(x) == (0, 1) for x in (a, b)):
                f = {'&': lambda x, y: x and y, '|': lambda x, y: x or y, '^': lambda x, y: x != y}[op]
                return [(s2, I(int(f(x, y)))) for s1, x in self.branch(st, a) for s2, y in self.branch(s1, b)]
            ba, bb = to_bits(a, w), to_bits(b, w)
            if ba is None and bb is not None:
                ba, bb, a, b = bb, ba, b, a
            if ba is not None and bb is not None:
                out = []
                for x, y in zip(ba, bb):
                    out.append(self.bit_of(op, x, y))
                return [(st, from_bits_as(out, w, s))]
            if op == '&' and a[0] == 'i' and a[1] >= 0:
                a, b = b, a
            if op == '&' and b[0] == 'i' and b[1] >= 0:
                v = self.int_app('&', a, b, t)
                self.ranges[v] = (0, b[1])
                return [(st, v)]
        if op in ('/', '%') and b[0] == 'i' and b[1] > 0:
            if b[1] == 1:
                return [(st, a if op == '/' else I(0))]
            r = self.int_app(op, a, b, t)
            if op == '%':
                if st.facts.proves_ge0(a, self.ranges):
                    self.ranges[r] = (0, b[1] - 1)
                    n = b[1]
                    # linear forms with all coefficients divisible
                    d, k = lin_parts(a)
                    if all(c % n == 0 for c in d.values()):
                        return [(st, I(k % n))]
            return [(st, r)]
        return [(st, self.int_app(op, a, b, t))]

    def exact_sum(self, st, r, w):
        """[(state, r modulo the width)] for a sum or difference of two numbers."""
        out = []
        for k, lo in ((0, ZERO), (1, I(1 << w)), (-1, I(-(1 << w)))):
            v = sub(r, lo)
            low, high = (x[1] >= 0 if x[0] == 'i' else st.facts.proves_ge0(x, self.ranges) or None for x in (v, sub(I((1 << w) - 1), v)))
            if low and high:
                return [(st, v)]
            if low is not False and high is not False:
                s = st.copy()
                if (low or s.facts.add_ge0(v, self.ranges)) and (high or s.facts.add_ge0(sub(I((1 << w) - 1), v), self.ranges)):
                    out.append((s, v))
        return out

    def exact_mul(self, st, op, a, b, t):
        """[(state, value)] of remainders and of multiples of a divisor; None: something else."""
        if op == '&':
            # alignments are powers of two
            for x, y in ((a, b), (b, a)):
                d, k = lin_parts(y)
                if len(d) == 1 and k == -1 and list(d.values()) == [1]:
                    return self.exact_mul(st, '%', x, next(iter(d)), t)
                if len(d) == 1 and k in (0, 1 << 64) and list(d.values()) == [-1]:
                    return [(s, sub(x, m)) for s, m in self.exact_mul(st, '%', x, next(iter(d)), t) or ()] or None
            return None
        if op == '*':
            for x, y in ((a, b), (b, a)):
                if x[0] == 'app' and x[1] == '/' and x[3] == y:
                    return [(s, sub(x[2], m)) for s, m in self.exact_mul(st, '%', x[2], y, t) or ()] or None
            return None
        if b == ZERO or not st.facts.proves_ge0(sub(b, I(1)), self.ranges) or b == I(1):
            return None
        if op == '/':
            return [(st, self.int_app('/', a, b, t))]
        ge = lambda f, v: v[1] >= 0 if v[0] == 'i' else f.proves_ge0(v, self.ranges)
        # multiples of the divisor do not count; alignments are powers of two
        d, k = lin_parts(a)
        x = I(k % b[1] if b[0] == 'i' else k)
        for v, c in d.items():
            if v[0] == 'app' and v[1] == '%' and v[3] == b:
                x = add(x, scale(v[2], c))
            elif v == b or b[0] == 'i' and c % b[1] == 0:
                continue
            elif v[0] == 'app' and v[1] == 'page' and ge(st.facts, sub(I(c), b)):
                continue                # as are divisors
            else:
                x = add(x, scale(v, c))
        d, k = lin_parts(x)
        if b[0] == 'i':
            d, k = {v: c % b[1] for v, c in d.items() if c % b[1]}, k % b[1]
            x = mk_lin(d, k)
        less = 1 if k == -1 else 0
        x = add(x, I(less))
        if ge(st.facts, x) and ge(st.facts, sub(sub(b, I(1)), x)):
            v = x
        else:
            v = self.int_app('%', x, b, t)
            self.ranges[v] = (0, (1 << 64) - 1)
            for y in (sub(sub(b, I(1)), v), sub(x, v)):
                if not ge(st.facts, y) and y[0] != 'i' and (ge(st.facts, x) or y != sub(x, v)):
                    st.facts.add_ge0(y, self.ranges)
        if not less:
            return [(st, v)]
        return [(s, sub(b, I(1)) if none else sub(v, I(1))) for s, none in self.branch(st, self.cmp('==', v, ZERO))]

    def within(self, st, v, k):
        """0 <= v < 2^k is known."""
        ge = lambda x: x[1] >= 0 if x[0] == 'i' else st.facts.proves_ge0(x, self.ranges)
        return ge(v) and ge(sub(I((1 << k) - 1), v))

    def halves(self, st, v, k):
        """(h, l) with v = 2^k h + l and 0 <= l < 2^k, or None."""
        d, c = lin_parts(v)
        for c0 in (c % (1 << k), c % (1 << k) - (1 << k)):
            l = mk_lin({x: n for x, n in d.items() if n % (1 << k)}, c0)
            if self.within(st, l, k):
                return mk_lin({x: n >> k for x, n in d.items() if n % (1 << k) == 0}, (c - c0) >> k), l
        return None

    def fields_of(self, st, op, a, b, w):
        """bit operations on numbers that are put together from fields of known width."""
        if a[0] == 'i' and op != '>>':
            a, b = b, a
        if a[0] not in ('lin', 'app', 'v', 'i'):
            return None
        if b[0] != 'i':
            if b[0] not in ('lin', 'app', 'v'):
                return None
            for x, y in ((a, b), (b, a)):
                d, c = lin_parts(x)
                k = min([w] + [(n & -n).bit_length() - 1 for n in list(d.values()) + ([c] if c else [])])
                if k > 0 and self.within(st, y, k) and self.within(st, x, w):
                    return ZERO if op == '&' else add(x, y) if op != '>>' else None
            return None
        m = b[1]
        if m < 0 or not self.within(st, a, w):
            return None
        if op == '>>':
            r = self.halves(st, a, m) if m < w else None
            return r and r[0]
        # the runs of ones in the constant
        both, lo = ZERO, 0
        while m >> lo:
            if not m >> lo & 1:
                lo += 1
                continue
            n = 1
            while m >> (lo + n) & 1:
                n += 1
            h = self.halves(st, a, lo)
            r = h and self.halves(st, h[0], n)
            if r is None:
                return None
            both = add(both, scale(r[1], 1 << lo))
            lo += n
        return both if op == '&' else sub(add(a, b), both) if op == '|' else sub(add(a, b), scale(both, 2))

    def mask_of_range(self, st, op, a, b):
        """bit operations with a constant on a number known to lie within one block of a power of two."""
        if b[0] != 'i' or b[1] <= 0 or a[0] not in ('lin', 'app'):
            return None
        m = b[1]
        k = m.bit_length()
        ge = lambda x: x[1] >= 0 if x[0] == 'i' else st.facts.proves_ge0(x, self.ranges)
        if op == '>>':
            if m >= 64 or not ge(a):
                return None
            if ge(sub(I((1 << m) - 1), a)):
                return ZERO
            v = ('app', '>>', a, b)
            if v in self.ranges:
                return v
            if ge(sub(I(1 << 62), a)):
                self.ranges[v] = (0, (1 << 62) >> m)
                return v
            return None
        full, single = m == (1 << k) - 1, m == 1 << (k - 1)
        if not (full or single) or not ge(a):
            return None
        lo, hi = (1 << k, (2 << k) - 1) if full else (m, 2 * m - 1)
        if op == '|' and full and ge(sub(I(m), a)):
            return b
        if op == '|' and not single:
            return None
        if ge(sub(I(lo - 1), a)):
            return a if op == '&' and full else ZERO if op == '&' else add(a, b)
        if ge(sub(a, I(lo))) and ge(sub(I(hi), a)):
            return sub(a, I(lo)) if op == '&' and full else b if op == '&' else a
        return None

    def bit_of(self, op, x, y):
        """one bit of a bit operation; when it is not known, a bit of its own, of which only the range is known."""
        if op == '&':
            r = 0 if x == 0 or y == 0 else (y if x == 1 else x if y == 1 else x if x == y else None)
        elif op == '|':
            r = 1 if x == 1 or y == 1 else (y if x == 0 else x if y == 0 else x if x == y else None)
        else:
            r = y if x == 0 else x if y == 0 else 0 if x == y else negbit(y) if x == 1 else negbit(x) if y == 1 else None
        return (self.opaque_bit(op, x, y), 0) if r is None else r

    def opaque_bit(self, op, x, y):
        k = BITS.get((op, x, y)) or BITS.get((op, y, x))
        if k is None:
            k = BITS[op, x, y] = len(BITS) + 1
            BIT[k] = (op, x, y)
        v = ('app', 'bit', I(k))
        self.ranges[v] = (0, 1)
        return v

    def int_app(self, op, a, b, t):
        v = ('app', op, a, b)
        return self.opaque_value(v, t) if self.tinfo(t).get('w', 64) != 8 else v

    def ptr_add(self, a, b, sgn):
        if a[0] != 'ptr' and b[0] == 'ptr':
            a, b = b, a
        if a[0] == 'ptr':
            loc = a[1]
            if loc[0] == 'el':
                return ('ptr', ('el', loc[1], add(loc[2], b, sgn)))
            if loc[0] == 'chr':
                return ('ptr', ('chr', loc[1], add(loc[2], b, sgn)))
            return ('ptr', ('el', loc, scale(b, sgn)))
        if a[0] == 'app' and a[1] == 'padd':
            return ('app', 'padd', a[2], add(a[3], b, sgn))
        return ('app', 'padd', a, scale(b, sgn))

    def convert(self, st, v, frm, to, line=0):
        """integral conversion."""
        tt, tf = self.tinfo(to), self.tinfo(frm)
        if tt.get('k') == 'bool':
            return self.to_bool(v)
        if tt.get('k') not in ('int', 'enum'):
            return v
        w, s = tt.get('w', 64), tt.get('s', True)
        if v[0] == 'i':
            return I(wrap(v[1], w, s))
        if v[0] == 'btab':
            return norm_btab(v[1], tuple(wrap(x, w, s) for x in v[2]))
        if v[0] == 'bvec' or v[0] == 'app' and v[1] == 'trunc' and v[2][0] == 'bvec':
            r = from_bits_as(to_bits(v, w), w, s)
            if r[0] == 'app':
                self.ranges[r] = (-(1 << (w - 1)), (1 << (w - 1)) - 1)
            return r
        if tf.get('k') == 'bool':
            return v
        wf, sf = tf.get('w', 64), tf.get('s', True)
        if (w > wf and (s or not sf)) or (w == wf and s == sf):
            return v
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        if tt.get('k') == 'enum' or tf.get('k') == 'enum':
            return v
        if st.facts.proves_ge0(sub(v, I(lo)), self.ranges) and (st.facts.proves_ge0(sub(I(hi), v), self.ranges)):
            return v
        if w == 64 and not s and st.facts.proves_ge0(v, self.ranges):
            return v
        if w == 64 and s and wf == 64:
            return v     # size_t -> ptrdiff_t: sizes stay below 2^63
        r = ('app', 'trunc', v, ('n', f"{'i' if s else 'u'}{w}"))
        self.ranges[r] = (lo, hi)
        return r

    def to_bool(self, v):
        if v[0] == 'i':
            return I(v[1] != 0)
        if v[0] == 'btab':
            return norm_btab(v[1], tuple(int(x != 0) for x in v[2]))
        if v[0] in ('null', 'nullopt'):
            return FALSE
        if v[0] in ('ptr', 'lam', 'opt'):
            return TRUE
        if v[0] == 'app' and (v[1] in models.BOOL_APPS or self.ranges.get(v) == (0, 1)):
            return v
        if self.intlike(v):
            if v[0] == 'bvec':
                return ('app', 'cmpv', '!=', v, ZERO)
            return self.neg(('app', 'eq0', self.canon_sign(v)))
        return self.neg(self.cmp('==', v, NULL))

    # ------------------------------------------------------------------ expressions
    def seq_eval(self, nodes, st, fr):
        """evaluate nodes left to right: [(st, [values])]"""
        out = [(st, [])]
        for n in nodes:
            nxt = []
            for s, vs in out:
                if s.ctrl is not None:
                    nxt.append((s, vs + [ZERO]))
                    continue
                for s2, v in self.eval(n, s, fr):
                    nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def rv(self, node, st, fr):
        """evaluate to an rvalue even if the node is a glvalue."""
        out = []
        for s, v in self.eval(node, st, fr):
            if s.ctrl is None and node.get('lv') and v[0] == 'ptr':
                v = self.read(s, v[1], node.get('t'))
            out.append((s, v))
        return out

    def as_loc(self, v):
        if v[0] == 'ptr':
            return v[1]
        return ('d', v)

    def temp(self, st, val):
        self.n += 1
        loc = ('t', self.n)
        st.mem[loc] = val
        return loc

    def eval(self, n, st, fr):
        if st.ctrl is not None:
            return [(st, ZERO)]
        if n is None:
            return [(st, ('app', 'void'))]
        k = n['k']
        cv = n.get('cv')
        if cv is not None and not n.get('lv') and k not in ('asg', 'casg'):
            return [(st, I(int(cv)))]
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Undecided(f'expression kind {k} at line {n.get("l")}')
        r = m(n, st, fr)
        if len(r) > self.max_states:
            raise Undecided('too many paths')
        return r

    def x_int(self, n, st, fr):
        return [(st, I(int(n['v'])))]

    def x_flt(self, n, st, fr):
        return [(st, ('f', n['v']))]

    def x_str(self, n, st, fr):
        return [(st, ('ptr', ('lit', bytes.fromhex(n['h']))))]

    def x_null(self, n, st, fr):
        return [(st, NULL)]

    def x_this(self, n, st, fr):
        return [(st, ('ptr', fr.this))]

    def x_trait(self, n, st, fr):
        return [(st, ('app', 'trait', ('n', str(n.get('l')))))]

    def x_typeid(self, n, st, fr):
        return [(st, self.fresh('typeid'))]

    def x_pdtor(self, n, st, fr):
        return [(st, ('app', 'void'))]

    def x_opq(self, n, st, fr):
        return [(st, self.fresh('opq'))]

    def x_zero(self, n, st, fr):
        return [(st, self.zero_of(st, n['t']))]

    def zero_of(self, st, t):
        ti = self.tinfo(t)
        k = ti.get('k')
        if k in ('int', 'bool', 'enum'):
            return ZERO
        if k == 'float':
            return ('f', '0')
        if k == 'ptr':
            return NULL
        if k == 'arr':
            z = self.zero_of(st, ti.get('p', ''))
            if ti.get('n', 0) <= 64:
                return ('seq', (z,) * ti.get('n', 0))
            return ('app', 'filled', I(ti['n']), z)
        if k == 'rec':
            return models.default_value(self, st, self.strip(t))
        return ('app', 'default', ('n', t))

    def x_ref(self, n, st, fr):
        dk = n['dk']
        if dk == 'enumc':
            return [(st, I(int(n['v'])))]
        if dk == 'func':
            return [(st, ('app', 'fn', ('n', n['fn']['key'])))]
        if dk in ('local', 'param', 'slocal'):
            loc = self.var_loc(fr, n['id'], n['n'])
            if loc in st.mem and self.is_refvar(fr, n['id']):
                v = st.mem[loc]
                return [(st, ('ptr', self.as_loc(v)))]
            if dk == 'slocal' and loc not in st.mem:
                loc = ('g', n['q'])
            return [(st, ('ptr', loc))]
        if dk == 'bind':
            b = self.find_bind(fr, n['id'])
            if b is not None:
                if isinstance(b, tuple):
                    return [(st, ('ptr', b))]
                return self.eval(b[0] if isinstance(b, list) else b, st, fr)
            return [(st, ('ptr', ('d', self.fresh('bind'))))]
        if dk == 'global':
            g = self.db.globals.get(n.get('qt')) or self.db.globals.get(n['q'])
            q = n.get('qt') or n['q']
            sp = models.GLOBALS.get(n['q'])
            if sp is not None:
                return [(st, ('ptr', self.temp(st, sp)))]
            if g is not None and '&' in g['t'][-2:]:
                v = self.global_value(st, q, g)
                return [(st, ('ptr', self.as_loc(v)))]
            return [(st, ('ptr', ('g', q)))]
        return [(st, ('app', 'ref', ('n', n.get('q', '?'))))]

    def frame_chain(self, fr):
        while fr is not None:
            yield fr
            fr = fr.parent

    def var_loc(self, fr, vid, name):
        if vid in fr.capt:
            return fr.capt[vid][0]
        return ('v', fr.id, name, vid)

    def is_refvar(self, fr, vid):
        if vid in fr.capt:
            return fr.capt[vid][1]
        return vid in fr.refs

    def find_bind(self, fr, vid):
        return fr.binds.get(vid)

    def x_mem(self, n, st, fr):
        out = []
        b = n['b']
        for s, v in self.eval(b, st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if n.get('arrow') and b.get('lv'):
                v = self.read(s, v[1], b.get('t'))
            if not n.get('arrow') and not b.get('lv'):
                # field of a prvalue
                out.append((s, self.proj(s, v, n['f'], n['t'])))
                continue
            if n.get('arrow') and v[0] != 'ptr':
                s.ev('deref', v, n['l'])
            loc = ('fl', self.as_loc(v), n['f'])
            ft = self.field_type(n)
            if ft is not None and ft.endswith('&'):
                fv = self.read(s, loc)
                loc = self.as_loc(fv)
            elif n['f'] in ('first', 'second'):
                loc = self.pair_ref(s, loc, b.get('t', ''), n.get('arrow'))
            out.append((s, ('ptr', loc)))
        return out

    def pair_ref(self, st, loc, t, arrow=False):
        """the place a member of a pair of type t is: where it refers to, when it is a reference."""
        t = self.strip(t)
        if arrow and t.endswith('*'):
            t = self.strip(t[:-1].strip())
        if models.head(t) != 'std::pair' or loc[2] not in ('first', 'second'):
            return loc
        a = models.split_targs(t)
        if len(a) == 2 and a[loc[2] == 'second'].endswith('&'):
            v = self.read(st, loc)
            if v[0] == 'ptr' and not (loc[1][0] == 'el' and loc[1][2][:2] == ('app', 'mkey')):
                return v[1]
        return loc

    def field_type(self, n):
        fq = n.get('q', '')
        cq = fq.rsplit('::', 1)[0]
        key = ('ft', fq)
        if key in self.gcache:
            return self.gcache[key]
        res = None
        for r in self.db.rec_q(cq):
            for f in r['fields']:
                if f['n'] == n['f']:
                    res = f['t']
        self.gcache[key] = res
        return res

    def x_memfn(self, n, st, fr):
        return [(s, ('app', 'memfn', ('n', n['n']), v)) for s, v in self.eval(n['b'], st, fr)]

    def x_ld(self, n, st, fr):
        out = []
        for s, v in self.eval(n['e'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if v[0] == 'ptr':
                if self.track_reads and self.nonlocal_loc(v[1]):
                    s.ev('rd', v[1], n['l'], s.locks)
                if v[1][0] == 'chr':
                    self.check_bound(s, fr, n['l'], v[1][1], v[1][2])
                elif v[1][0] == 'el':
                    self.check_elem(s, fr, n['l'], v[1])
                v = self.read(s, v[1], n['t'])
            else:
                v = self.opaque_value(('app', 'init', ('d', v)), n['t'])
            out.append((s, v))
        return out

    def check_bound(self, st, fr, line, sv, idx):
        size = self.csize(sv)
        ok = st.facts.proves_ge0(idx, self.ranges) and st.facts.proves_ge0(sub(sub(size, idx), I(1)), self.ranges)
        self.bounds.append((ok, fr.fn.get('q'), line, idx, size, None if ok else st.facts.copy()))

    def check_elem(self, st, fr, line, loc):
        pass

    def x_mat(self, n, st, fr):
        out = []
        for s, v in self.eval(n['e'], st, fr):
            if s.ctrl is None:
                if n['e'].get('lv'):
                    out.append((s, v))
                    continue
                v = ('ptr', self.temp(s, v))
            out.append((s, v))
        return out

    def x_idx(self, n, st, fr):
        out = []
        for s, (b, i) in self.seq_eval2(n['b'], n['i'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if n['b'].get('lv'):
                bl = b[1]
                if self.tinfo(n['b']['t']).get('k') == 'ptr':
                    b = self.read(s, bl, n['b']['t'])
                    out.append((s, self.deref_idx(b, i)))
                else:
                    out.append((s, ('ptr', ('el', bl, i))))
            else:
                out.append((s, self.deref_idx(b, i)))
        return out

    def deref_idx(self, b, i):
        p = self.ptr_add(b, i, 1)
        return ('ptr', self.as_loc(p))

    def seq_eval2(self, a, b, st, fr):
        return self.seq_eval([a, b], st, fr)

    def x_un(self, n, st, fr):
        op = n['op']
        out = []
        for s, v in self.eval(n['e'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if op == '*':
                if v[0] == 'null':
                    s.ev('nullderef', n['l'])
                if v[0] != 'ptr':
                    s.ev('deref', v, n['l'])
                out.append((s, ('ptr', self.as_loc(v))))
            elif op == '&':
                out.append((s, v))
            elif op == '!':
                out.append((s, self.neg(self.to_bool(v) if v[0] not in ('app',) else v)))
            elif op in ('++', '--'):
                old = self.read(s, v[1], n['t'])
                ti = self.tinfo(n['t'])
                if ti.get('k') == 'ptr':
                    rs = [(s, self.ptr_add(old, I(1), 1 if op == '++' else -1))]
                elif ti.get('k') == 'float':
                    rs = [(s, ('app', 'f' + op, old))]
                else:
                    rs = self.arith(s, '+' if op == '++' else '-', old, I(1), n['t'], n['l'], fr)
                for s2, nv in rs:
                    self.write(s2, v[1], nv, n['l'])
                    out.append((s2, old if n.get('post') else v))
            elif op == '-':
                ti = self.tinfo(n['t'])
                if ti.get('k') == 'float':
                    out.append((s, ('app', 'fneg', v)))
                elif ti.get('s', True):
                    out.append((s, scale(v, -1)))
                else:
                    out += self.arith(s, '-', ZERO, v, n['t'], n['l'], fr)
            elif op == '~':
                ti = self.tinfo(n['t'])
                bits = to_bits(v, ti.get('w', 32))
                if v[0] == 'i':
                    out.append((s, I(wrap(~v[1], ti.get('w', 32), ti.get('s', True)))))
                elif v[0] == 'btab':
                    out.append((s, norm_btab(v[1], tuple(wrap(~x, ti.get('w', 32), ti.get('s', True)) for x in v[2]))))
                elif bits is not None:
                    out.append((s, from_bits_as([negbit(b) for b in bits], ti.get('w', 32), ti.get('s', True))))
                else:
                    ti = self.tinfo(n['t'])
                    if self.exact and ti.get('w') == 64 and not ti.get('s', True):
                        v = sub(I((1 << 64) - 1), v)
                    else:
                        v = self.opaque_value(('app', '~', v), n['t'])
                    out.append((s, v))
            elif op in ('+', '__extension__'):
                out.append((s, v))
            else:
                out.append((s, ('app', 'un' + op, v)))
        return out

    def x_bin(self, n, st, fr):
        op = n['op']
        if op in ('&&', '||'):
            out = []
            for s, v in self.rv(n['a'], st, fr):
                if s.ctrl is not None:
                    out.append((s, ZERO))
                    continue
                for s2, t in self.branch(s, v):
                    if (op == '&&') != t:
                        out.append((s2, I(t)))
                    else:
                        for s3, v3 in self.rv(n['b'], s2, fr):
                            out.append((s3, self.to_bool(v3) if s3.ctrl is None else ZERO))
            return self.merge_bool(out)
        if op == ',':
            out = []
            for s, _ in self.eval(n['a'], st, fr):
                out += self.eval(n['b'], s, fr)
            return out
        out = []
        for s, (a, b) in self.seq_eval2(n['a'], n['b'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if op in ('<', '<=', '>', '>=', '==', '!='):
                ti = self.tinfo(n['a']['t'])
                if ti.get('k') == 'float':
                    if a[0] == b[0] == 'f':
                        out.append((s, I(int({'<': float.__lt__, '<=': float.__le__, '>': float.__gt__, '>=': float.__ge__, '==': float.__eq__, '!=': float.__ne__}[op](float(a[1]), float(b[1]))))))
                    else:
                        out.append((s, ('app', 'f' + op, a, b)))
                else:
                    out.append((s, self.cmp(op, a, b, n['a']['t'])))
            elif op in ('.*', '->*'):
                out.append((s, ('ptr', ('d', ('app', 'memptr', a, b)))))
            else:
                if op == '-' and a[0] == 'ptr' and b[0] == 'ptr':
                    out.append((s, self.ptr_diff(a, b)))
                    continue
                out += self.arith(s, op, a, b, n['t'], n['l'], fr)
        return out

    def ptr_diff(self, a, b):
        la, lb = a[1], b[1]
        if la[0] == lb[0] and la[0] in ('el', 'chr') and la[1] == lb[1]:
            return sub(la[2], lb[2])
        v = ('app', 'ptrdiff', a, b)
        return v

    def merge_bool(self, out):
        return out

    def x_asg(self, n, st, fr):
        out = []
        # C++17: right operand first
        for s, (b, a) in self.seq_eval2(n['b'], n['a'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if n['b'].get('lv') and b[0] == 'ptr':
                b = self.read(s, b[1], n['b']['t'])
            if a[0] == 'ptr':
                self.write(s, a[1], b, n['l'])
            out.append((s, a))
        return out

    def x_casg(self, n, st, fr):
        out = []
        for s, (b, a) in self.seq_eval2(n['b'], n['a'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            lt = n['a']['t']
            old = self.read(s, a[1], lt)
            ct = n.get('ct') or lt
            x = self.convert(s, old, lt, ct)
            for s2, v in self.arith(s, n['op'], x, b, ct, n['l'], fr):
                v = self.convert(s2, v, ct, lt)
                self.write(s2, a[1], v, n['l'])
                out.append((s2, a))
        return out

    def x_cond(self, n, st, fr):
        out = []
        for s, c in self.rv(n['c'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            for s2, t in self.branch(s, c):
                out += self.eval(n['a'] if t else n['b'], s2, fr)
        return out

    def x_cast(self, n, st, fr):
        out = []
        ck = n['ck']
        for s, v in self.eval(n['e'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if ck in ('IntegralCast', 'IntegralToBoolean', 'BooleanToSignedIntegral'):
                v = self.convert(s, v, n['e']['t'], n['t'], n['l'])
            elif ck in ('PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
                v = self.to_bool(v) if v[0] != 'f' else v
            elif ck == 'ArrayToPointerDecay':
                if v[0] == 'ptr':
                    x = st.mem.get(v[1])
                    if v[1][0] == 'lit':
                        v = ('ptr', ('chr', lit(v[1][1]), ZERO))
                    elif x is not None and x[0] == 'ptr' and x[1][0] == 'lit':
                        v = ('ptr', ('chr', lit(x[1][1]), ZERO))
                    else:
                        v = ('ptr', ('el', v[1], ZERO))
            elif ck == 'NullToPointer':
                v = NULL
            elif ck in ('IntegralToFloating', 'FloatingCast', 'FloatingToIntegral'):
                if ck == 'FloatingCast':
                    pass
                else:
                    v = self.opaque_value(('app', ck, v, ('n', n['t'])), n['t'])
            elif ck == 'ToVoid':
                v = ('app', 'void')
            elif ck == 'LValueBitCast' or ck == 'BitCast':
                v = models.bitcast(self, s, v, n)
            elif ck == 'Dynamic':
                c = models.dyncast(self, s, v, n)
                out += c
                continue
            elif ck in ('PointerToIntegral', 'IntegralToPointer'):
                if ck == 'IntegralToPointer' and v[0] == 'app' and v[1] == 'PointerToIntegral':
                    out.append((s, v[2]))
                    continue
                if self.exact and ck == 'PointerToIntegral' and v[0] == 'app' and v[1] == 'IntegralToPointer':
                    v = v[2]
                elif self.exact and v in (NULL, ZERO):
                    v = ZERO if ck == 'PointerToIntegral' else NULL
                else:
                    v = self.opaque_value(('app', ck, v), n['t'])
            out.append((s, v))
        return out

    def x_new(self, n, st, fr):
        out = []
        nodes = []
        if n.get('n'):
            nodes.append(n['n'])
        for s, vs in self.seq_eval(nodes, st, fr):
            if n.get('init'):
                rs = self.eval(n['init'], s, fr)
            else:
                rs = [(s, self.zero_of(s, n['at']) if self.tinfo(n['at']).get('k') == 'rec' else ('app', 'uninit'))]
            for s2, v in rs:
                if n.get('pl'):
                    for s3, pv in self.rv(n['pl'][0], s2, fr):
                        self.write(s3, self.as_loc(pv), v, n['l'])
                        out.append((s3, pv))
                    continue
                self.n += 1
                loc = ('h', self.n, n['at'])
                if n.get('n'):
                    v = ('app', 'filled', vs[0], v)
                s2.mem[loc] = v
                s2.ev('new', loc, n['l'])
                out.append((s2, ('ptr', loc if not n.get('n') else ('el', loc, ZERO))))
        return out

    def x_delete(self, n, st, fr):
        out = []
        for s, v in self.rv(n['e'], st, fr):
            s.ev('delete', v, n['l'])
            out.append((s, ('app', 'void')))
        return out

    def x_throw(self, n, st, fr):
        out = []
        for s, v in (self.rv(n['e'], st, fr) if n.get('e') else [(st, ('app', 'rethrow'))]):
            s = s.copy()
            s.ctrl = ('throw', v, n['e']['t'] if n.get('e') else None, n['l'], fr.fn.get('q'))
            out.append((s, ZERO))
        return out

    def x_lam(self, n, st, fr):
        caps = []
        out = [(st, [])]
        for c in n['caps']:
            nxt = []
            for s, vs in out:
                if c.get('this'):
                    nxt.append((s, vs + [('this', fr.this)]))
                    continue
                if c.get('e') is not None:
                    for s2, v in self.eval(c['e'], s, fr):
                        if c.get('ref'):
                            nxt.append((s2, vs + [('ref', c['id'], self.as_loc(v))]))
                        else:
                            if c['e'].get('lv') and v[0] == 'ptr':
                                v = self.read(s2, v[1], c['e'].get('t'))
                            nxt.append((s2, vs + [('val', c['id'], v)]))
                else:
                    loc = self.var_loc(fr, c['id'], c['n'])
                    nxt.append((s, vs + [('ref', c['id'], loc)]))
            out = nxt
        return [(s, ('lam', n['fk'], tuple(vs))) for s, vs in out]

    def x_ilist(self, n, st, fr):
        out = []
        ti = self.tinfo(n['t'])
        for s, vs in self.seq_eval(n['a'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            vals = []
            for a, v in zip(n['a'], vs):
                if a.get('lv') and v[0] == 'ptr':
                    v = self.read(s, v[1], a.get('t'))
                vals.append(v)
            if ti.get('k') == 'rec':
                if 'std::initializer_list' in n['t']:
                    out.append((s, ('seq', tuple(vals))))
                    continue
                fs = n.get('fs') or []
                if n.get('uf'):
                    out.append((s, ('st', self.strip(n['t']), ((n['uf'], vals[0]),) if vals else ())))
                    continue
                if self.strip(n['t']).startswith('std::array<'):
                    if vals and vals[0][0] in ('seq', 'app'):
                        out.append((s, vals[0]))
                    else:
                        out.append((s, ('seq', tuple(vals))))
                    continue
                pairs = []
                for f, v in zip(fs, vals):
                    if f == '<base>' and v[0] == 'st':
                        pairs += list(v[2])
                    else:
                        pairs.append((f, v))
                out.append((s, ('st', self.strip(n['t']), tuple(pairs))))
            elif ti.get('k') == 'arr':
                cnt = ti.get('n', len(vals))
                if cnt > len(vals):
                    z = self.zero_of(s, ti.get('p', ''))
                    if cnt <= 4096:
                        vals = vals + [z] * (cnt - len(vals))
                out.append((s, ('seq', tuple(vals))))
            elif len(vals) == 1:
                out.append((s, vals[0]))
            elif not vals:
                out.append((s, self.zero_of(s, n['t'])))
            else:
                out.append((s, ('seq', tuple(vals))))
        return out

    def x_plist(self, n, st, fr):
        return [(s, vs[-1] if vs else ZERO) for s, vs in self.seq_eval(n['a'], st, fr)]

    def x_stmtexpr(self, n, st, fr):
        b = n['b']
        items = b['b'] if b['k'] == 'block' else [b]
        if any(c is not None and c['k'] == 'decl' and any('google::SiteFlag' in v['t'] for v in c['v']) for c in items):
            # VLOG_IS_ON: whether a log site is enabled is not the program's business
            if self.quiet_logs:
                return [(st, ZERO)]
            v = ('app', 'logging', ('i', n['l']))
            self.ranges[v] = (0, 1)
            return [(st, v)]
        states = [st]
        for c in items[:-1]:
            states = [x for s in states for x in (self.exec(c, s, fr) if s.ctrl is None else [s])]
        out = []
        for s in states:
            if s.ctrl is not None:
                out.append((s, ZERO))
            elif items and items[-1] is not None and items[-1]['k'] == 'expr':
                out += self.eval(items[-1]['e'], s, fr)
            else:
                raise Undecided('statement expression')
        return out

    def x_other(self, n, st, fr):
        if n.get('n') == 'RecoveryExpr':
            raise Undecided('the expression does not type-check here')
        out = []
        for s, vs in self.seq_eval(n.get('a', []), st, fr):
            out.append((s, ('app', 'other:' + n.get('n', '?') + ':' + n.get('m', ''), *vs)))
        return out

    # ------------------------------------------------------------------ calls
    def x_ctor(self, n, st, fr):
        return self.do_ctor(n, st, fr)

    def do_ctor(self, n, st, fr):
        fn = n['fn']
        t = self.strip(n['t'])
        out = []
        for s, vs in self.seq_eval(n['a'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            out += self.construct(s, fr, n, fn, t, vs, n['a'])
        return out

    def construct(self, st, fr, n, fn, t, vs, nodes):
        self.call_sites += 1
        h = self.hooks.get(fn['q']) or ('<' in fn['q'] and self.hooks and self.hooks.get(plain(fn['q'])))
        if h:
            r = h(self, st, fr, n, None, vs)
            if r is not None:
                return r
        body = self.db.fns.get(fn['key'])
        sp = n.get('sp')
        if '::proto' in t:
            from . import models_proto
            if models_proto.is_msg(t):
                if not vs:
                    return [(st, models_proto.new(t))]
                loc = self.as_loc(vs[0])
                v = self.read_raw(st, loc, t)
                if '&&' in str(fn.get('pt')):
                    self.move_out(st, loc, v, t)
                return [(st, v)]
        if body is not None and not body.get('defaulted') and fn['q'] not in self.opaque_q and len(self.stack) < self.max_depth:
            # run the constructor on a fresh object, or on the variable it initialises
            loc = self.places.get((id(n), fr.id)) if fr is not None else None
            if loc is None:
                self.n += 1
                loc = ('t', self.n)
                self.loct[loc] = t
            else:
                for l in [l for l in st.mem if l == loc or self.is_under(l, loc)]:
                    del st.mem[l]
            res = []
            for s2, _ in self.invoke(body, st, loc, vs, n, fr, ctor_type=t):
                if s2.ctrl is not None:
                    res.append((s2, ZERO))
                    continue
                v = self.read(s2, loc, t)
                for l in [l for l in s2.mem if l == loc or self.is_under(l, loc)]:
                    del s2.mem[l]
                # keep self references alive
                s2.mem[loc] = v
                res.append((s2, v))
            return res
        if sp in ('copy', 'move') and vs:
            loc = self.as_loc(vs[0])
            v = self.read(st, loc, t)
            if sp == 'move':
                self.move_out(st, loc, v, t)
            return [(st, v)]
        if t in self.db.recs and (sp == 'default' or not vs):
            return self.default_construct(st, fr, t)
        return models.construct(self, st, fr, n, fn, t, vs, nodes)

    def default_construct(self, st, fr, t):
        """implicit / defaulted default constructor: in-class initialisers, else default values."""
        if t in models.VALUE_TYPES:
            return [(st, models.default_value(self, st, t))]
        out = [(st, [])]
        for f, r in self.db.all_fields(t):
            nxt = []
            for s, vs in out:
                if f.get('init') is not None:
                    fr2 = Frame({'key': 'nsdmi', 'q': t, 'clst': t}, None)
                    self.n += 1
                    tl = ('t', self.n)
                    for (fn_, v_) in vs:
                        s.mem[('fl', tl, fn_)] = v_
                    fr2.this = tl
                    for s2, v in self.eval(f['init'], s, fr2):
                        if f['init'].get('lv') and v[0] == 'ptr' and not f['t'].endswith('&'):
                            v = self.read(s2, v[1], f['t'])
                        nxt.append((s2, vs + [(f['n'], v)]))
                else:
                    ti = self.tinfo(f['t'])
                    if ti.get('k') == 'rec':
                        v = models.default_value(self, s, self.strip(f['t']))
                    else:
                        v = ('app', 'uninit', ('n', f['n']))
                    nxt.append((s, vs + [(f['n'], v)]))
            out = nxt
        return [(s, ('st', t, tuple(vs))) for s, vs in out]

    def move_out(self, st, loc, v, t):
        m = models.moved_from(self, st, v, t)
        if m is not None:
            self.write(st, loc, m, 0, log=False)

    def x_call(self, n, st, fr):
        out = []
        for s, vs in self.seq_eval(n['a'], st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            out += self.call(s, fr, n, n['fn'], None, vs)
        return out

    def x_mcall(self, n, st, fr):
        out = []
        b = n['b']
        for s, bv in self.eval(b, st, fr):
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if n.get('arrow'):
                if b.get('lv') and bv[0] == 'ptr':
                    bv = self.read(s, bv[1], b.get('t'))
                if bv == NULL:
                    s = s.copy()
                    s.ev('nullderef', n.get('l'))
                    s.ctrl = ('abort', n.get('l'))
                    out.append((s, ZERO))
                    continue
                base = self.as_loc(bv)
            else:
                if b.get('lv'):
                    base = self.as_loc(bv)
                else:
                    base = ('t', -1)
                    base = self.temp(s, bv)
            # assignment operators evaluate the right side first; order irrelevant otherwise
            for s2, vs in self.seq_eval(n['a'], s, fr):
                if s2.ctrl is not None:
                    out.append((s2, ZERO))
                    continue
                out += self.call(s2, fr, n, n['fn'], base, vs)
        return out

    def x_icall(self, n, st, fr):
        out = []
        if n.get('ce') is None:
            for s, vs in self.seq_eval(n['a'], st, fr):
                out.append((s, self.fresh('icall')))
            return out
        for s, c in self.rv(n['ce'], st, fr):
            for s2, vs in self.seq_eval(n['a'], s, fr):
                if s2.ctrl is not None:
                    out.append((s2, ZERO))
                    continue
                if c[0] == 'app' and c[1] == 'fn':
                    f = self.db.fns.get(c[2][1])
                    if f is not None:
                        out += self.invoke(f, s2, None, vs, n, fr)
                        continue
                if c[0] == 'lam':
                    out += self.call_lambda(s2, fr, c, vs, n)
                    continue
                s2.ev('icall', c, tuple(vs), n['l'])
                out.append((s2, self.opaque_value(self.fresh('icall'), n['t'])))
        return out

    def value_args(self, st, n, vs):
        """argument values with references to prvalue-ish things dereferenced (for terms)."""
        out = []
        nodes = n.get('a', [])
        for i, v in enumerate(vs):
            nd = nodes[i] if i < len(nodes) else None
            if nd is not None and nd.get('lv') and v[0] == 'ptr':
                out.append(self.read(st, v[1], nd.get('t')))
            else:
                out.append(v)
        return out

    def call(self, st, fr, n, fn, base, vs):
        self.call_sites += 1
        q = fn['q']
        h = self.hooks.get(q) or ('<' in q and self.hooks and self.hooks.get(plain(q)))
        if h:
            r = h(self, st, fr, n, base, vs)
            if r is not None:
                return r
        if base is not None and fn.get('n', q.split('::')[-1]).endswith('operator()'):
            bv = st.mem.get(base)
            if bv is None and base[0] == 'v':
                bv = self.read(st, base)
            if bv is not None and bv[0] == 'lam':
                return self.call_lambda(st, fr, bv, vs, n, [a.get('t') if a else None for a in n.get('a', [])])
        if self.track_reads and q.startswith('std::') and q not in NO_READ:
            st = self.lib_reads(st, n, fn, base, vs, q)
        r = models.call(self, st, fr, n, fn, base, vs)
        if r is not None:
            return r
        body = self.resolve(st, fn, base, n)
        if body is not None and q not in self.opaque_q and len(self.stack) < self.max_depth and \
                self.stack.count(body['key']) < self.recursions:
            if body.get('defaulted') and fn.get('sp') in ('copyassign', 'moveassign'):
                src = self.as_loc(vs[0])
                v = self.read(st, src, fn['clst'])
                self.write(st, base, v, n['l'])
                if fn['sp'] == 'moveassign':
                    self.move_out(st, src, v, fn['clst'])
                return [(st, ('ptr', base))]
            for k, b0, v0, e0, m0 in self.entries:
                if k == body['key'] and b0 == base and v0 == vs and e0 == st.eff and vs and all(st.mem.get(l) == x for l, x in m0.items()):
                    # called again in the situation it was entered in
                    self.endless.append((q, n.get('l'), st.copy()))
                    return []
            return self.invoke(body, st, base, vs, n, fr)
        if fn.get('sp') in ('copyassign', 'moveassign') and base is not None:
            src = self.as_loc(vs[0])
            v = self.read(st, src, fn['clst'])
            self.write(st, base, v, n['l'])
            if fn['sp'] == 'moveassign':
                self.move_out(st, src, v, fn['clst'])
            return [(st, ('ptr', base))]
        return models.opaque_call(self, st, fr, n, fn, base, vs)

    def lib_reads(self, st, n, fn, base, vs, q=''):
        """objects shared with other threads that a library operation looks at."""
        locs = [base] if base is not None else []
        for i, v in enumerate(vs):
            a = n.get('a', ())
            if v[0] == 'ptr' and i < len(a) and a[i] is not None and a[i].get('lv'):
                locs.append(v[1])
        s = st
        for l in locs:
            if self.nonlocal_loc(l) and not (l == base and ('mutex' in q or 'condition_variable' in q)):
                if s is st:
                    s = st.copy()
                s.ev('rd', l, n.get('l'), s.locks)
        return s

    def resolve(self, st, fn, base, n):
        if fn.get('virt') and not n.get('qual') and base is not None:
            dyn = st.cls.get(base)
            if dyn is None and base[0] == 'h':
                dyn = base[2]
            if dyn is None and base[0] in ('t', 'v'):
                v = st.mem.get(base)
                if v is not None and v[0] == 'st':
                    dyn = v[1]
                elif v is None:
                    dyn = self.dyn.get(base)
            if dyn is None and base[0] in ('fl', 'ix'):
                # a member or an element: what was stored there tells its type
                v = st.mem.get(base)
                if v is None:
                    dyn = self.dyn.get(base)
                    v = self.read(st, base) if dyn is None else v
                if dyn is None and v[0] == 'st':
                    dyn = v[1]
            if dyn is not None:
                r = self.find_override(dyn, fn['key'])
                if r is not None:
                    return r
            over = self.overriders(fn['key'])
            own = self.db.fns.get(fn['key'])
            if not over:
                return own
            if own is None and len(over) == 1:
                return None
            return None
        return self.db.fns.get(fn['key'])

    def overriders(self, key):
        c = self.gcache.get('over')
        if c is None:
            c = {}
            for f in self.db.fns.values():
                for o in f.get('over', ()):
                    c.setdefault(o, []).append(f)
            self.gcache['over'] = c
        return c.get(key, [])

    def find_override(self, dyn, key):
        seen = set()
        todo = [key]
        cands = {key}
        while todo:
            k = todo.pop()
            for f in self.overriders(k):
                if f['key'] not in cands:
                    cands.add(f['key'])
                    todo.append(f['key'])
        t = dyn
        chain = [t]
        while chain:
            t = chain.pop(0)
            for k in cands:
                f = self.db.fns.get(k)
                if f is not None and f.get('clst') == t:
                    return f
            r = self.db.recs.get(t)
            if r:
                chain += r['bases']
        return None

    def call_lambda(self, st, fr, lam, vs, n, arg_types=None):
        f = self.db.fns.get(lam[1])
        if f is None or f.get('dep'):
            f = self.pick_generic(lam, arg_types) or f
        if f is None:
            return [(st, self.fresh('lamcall'))]
        return self.invoke(f, st, None, vs, n, fr, lam=lam)

    def pick_generic(self, lam, arg_types):
        pre = lam[1].split('#')[0]
        c = [f for k, f in self.db.fns.items() if k.startswith(pre + '#') and not f.get('dep')]
        if arg_types:
            for f in c:
                if [self.strip(p['t']) for p in f['params']] == [self.strip(x) for x in arg_types]:
                    return f
        if len(c) == 1:
            return c[0]
        return None

    def invoke(self, f, st, this, vs, n, caller, lam=None, ctor_type=None):
        """inline a function; returns [(st, value)] with ctrl cleared unless throwing/aborting."""
        fr = Frame(f, this)
        this0, vs0 = this, vs
        self.visited_fns.add(f['key'])
        st = st.copy()
        if lam is not None:
            for c in lam[2]:
                if c[0] == 'this':
                    fr.this = c[1]
                elif c[0] == 'ref':
                    fr.capt[c[1]] = (c[2], False)
                else:
                    loc = ('v', fr.id, 'cap', c[1])
                    st.mem[loc] = c[2]
                    fr.capt[c[1]] = (loc, False)
        params = f['params']
        for i, p in enumerate(params):
            loc = ('v', fr.id, p['n'], p['id'])
            isref = p['t'].endswith('&')
            if i < len(vs):
                v = vs[i]
            elif p.get('def') is not None:
                r = self.eval(p['def'], st, fr)
                st, v = r[0]
            else:
                v = self.opaque_value(('app', 'param', ('n', p['n'])), p['t'])
            if isref:
                fr.refs.add(p['id'])
                if v[0] != 'ptr' and lam is not None:
                    v = ('ptr', self.temp(st, v))
            elif v[0] == 'ptr' and self.tinfo(p['t']).get('k') not in ('ptr', 'arr', 'other') and i < len(vs) \
                    and not (v[1][0] == 'h' and len(v[1]) > 2 and models.head(self.strip(p['t'])) in models.SMART and models.head(str(v[1][2])) not in models.SMART):
                # class value handed over as a location (models / lambdas); an iterator is such a location itself
                if models.head(self.strip(p['t'])) not in models.ITERS or (st.mem.get(v[1]) or ('?',))[0] == 'ptr':
                    v = self.read(st, v[1], p['t'])
            st.mem[loc] = v
        self.stack.append(f['key'])
        self.entries.append((f['key'], this0, vs0, st.eff, {l: x for l, x in st.mem.items() if self.root(l)[0] != 'v' or self.root(l)[1] != fr.id}))
        try:
            out = []
            states = [st]
            if f.get('ctor'):
                states = self.run_inits(f, st, fr, ctor_type)
            for s in states:
                if s.ctrl is not None:
                    out.append((s, ZERO))
                    continue
                for s2 in self.exec(f.get('body'), s, fr):
                    rv = s2.ret if s2.ret is not None else ('app', 'void')
                    if s2.ctrl is not None and s2.ctrl[0] == 'ret':
                        s2.ctrl = None
                    s2.ret = None
                    self.drop_frame(s2, fr, rv)
                    out.append((s2, rv if s2.ctrl is None else ZERO))
        finally:
            self.stack.pop()
            self.entries.pop()
        return self.dedupe_vals(out)

    def drop_frame(self, st, fr, rv):
        # locals of a finished frame can only be referenced by dangling pointers; drop them
        dead = [l for l in st.mem if self.root(l)[0] == 'v' and self.root(l)[1] == fr.id]
        if rv is not None and rv[0] == 'ptr' and self.root(rv[1])[0] == 'v' and self.root(rv[1])[1] == fr.id:
            return
        for l in dead:
            del st.mem[l]

    def root(self, loc):
        while loc[0] in ('fl', 'el', 'base'):
            loc = loc[1]
        return loc

    def run_inits(self, f, st, fr, t):
        states = [st]
        this = fr.this
        for ini in f.get('inits', []):
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                    continue
                e = ini['e']
                if 'f' in ini:
                    ft = None
                    r = self.db.recs.get(f.get('clst'))
                    if r:
                        for x in r['fields']:
                            if x['n'] == ini['f']:
                                ft = x['t']
                    at = ('fl', this, ini['f'])
                    if r and ft is None:
                        for x in r['fields']:
                            for y in (self.rec_of(x['t']) or {}).get('fields', ()) if x['n'] == '' else ():
                                if y['n'] == ini['f']:
                                    ft, at = y['t'], ('fl', ('fl', this, ''), y['n'])
                    if e is None:
                        s.mem[at] = ('app', 'uninit', ('n', ini['f']))
                        nxt.append(s)
                        continue
                    if e['k'] == 'ctor' and not (ft or '').endswith('&'):
                        self.places[(id(e), fr.id)] = at
                    for s2, v in self.eval(e, s, fr):
                        if s2.ctrl is None:
                            if e.get('lv') and v[0] == 'ptr' and not (ft or '').endswith('&'):
                                v = self.read(s2, v[1], ft or e.get('t'))
                            self.write(s2, at, v, ini['l'], log=False)
                        nxt.append(s2)
                else:
                    # delegating or base initialiser: evaluate and spread the fields
                    for s2, v in self.eval(e, s, fr):
                        if s2.ctrl is None:
                            if v[0] == 'st':
                                for n_, x in v[2]:
                                    s2.mem[('fl', this, n_)] = x
                            elif ini.get('deleg'):
                                s2.mem[this] = v
                        nxt.append(s2)
            states = nxt
        # fields without an initialiser entry
        return states

    def dedupe_vals(self, rs):
        if len(rs) < 2:
            return rs
        groups = {}
        order = []
        for s, v in rs:
            key = (v, s.ctrl, s.eff, s.locks)
            try:
                hash(key)
            except TypeError:
                order.append((s, v))
                continue
            g = groups.get(key)
            if g is None:
                groups[key] = [[s]]
                order.append(key)
            else:
                for i, x in enumerate(g):
                    if x[0].mem == s.mem:
                        x.append(s)
                        break
                else:
                    g.append([s])
        out = []
        for o in order:
            if isinstance(o, tuple) and len(o) == 4 and o in groups:
                for x in groups[o]:
                    for s in self.join_group(x):
                        out.append((s, o[0]))
            else:
                out.append(o)
        return self.tabulate(out) if len(out) > 1 else out

    def tabulate(self, rs):
        """results that differ in the value of one input byte only: one result that is a table function of that byte."""
        groups = []
        for s, v in rs:
            ok = s.ctrl is None and v[0] in ('i', 'btab')
            for g in groups if ok else ():
                t, _ = g[0]
                if g[1] is not None and t.locks == s.locks and t.eff == s.eff and t.mem == s.mem and t.facts.lin == s.facts.lin and t.facts.neq == s.facts.neq \
                        and t.facts.bools == s.facts.bools and t.facts.sets == s.facts.sets:
                    g[1].append((s, v))
                    break
            else:
                groups.append([(s, v), [(s, v)] if ok else None])
        out = []
        for first, g in groups:
            if g is None:
                out.append(first)
                continue
            r = self.tab_group(g) if len(g) > 1 else None
            if r is None:
                out += g
            else:
                out.append(r)
        return out

    def tab_group(self, g):
        keys = set()
        for s, _ in g:
            keys |= set(s.facts.bytes)
        full = (1 << 256) - 1
        diff = [k for k in keys if len({s.facts.bytes.get(k, full) for s, _ in g}) > 1]
        if len(diff) != 1:
            return None
        a = diff[0]
        tab = [0] * 256
        union = 0
        for s, v in g:
            m = s.facts.bytes.get(a, full)
            if m & union or v[0] == 'btab' and v[1] != a:
                return None
            union |= m
            for i in range(256):
                if m >> i & 1:
                    tab[i] = v[1] if v[0] == 'i' else v[2][i]
        st = g[0][0]
        st.facts.bytes[a] = union
        if union == full:
            del st.facts.bytes[a]
        return st, norm_btab(a, tuple(tab))

    # ------------------------------------------------------------------ statements
    def exec(self, n, st, fr):
        if n is None or st.ctrl is not None:
            return [st]
        m = getattr(self, 's_' + n['k'], None)
        if m is None:
            raise Undecided(f'statement kind {n["k"]} at line {n.get("l")}')
        if self.phi:
            r = self.exec_phi(m, n, st, fr)
        else:
            r = m(n, st, fr)
        if len(r) > self.max_states:
            raise Undecided(f'too many paths at line {n.get("l")} of {fr.fn.get("q")}')
        return r

    def exec_phi(self, m, n, st, fr):
        work = [st]
        out = []
        steps = 0
        while work:
            s = work.pop(0)
            nb = len(self.bounds)
            depth = len(self.stack)
            try:
                out += m(n, s.copy(), fr)
            except NeedSplit as e:
                steps += 1
                if steps > 600:
                    raise Undecided(f'too many case splits at line {n.get("l")}')
                del self.bounds[nb:]
                del self.stack[depth:]
                for g in e.groups:
                    s2 = self.restrict(s, e.sid, g)
                    if s2 is not None:
                        work.append(s2)
        if len(out) > 1:
            out = self.join_states(self.merge(out))
        return out

    def merge(self, states):
        """join states that differ in facts only."""
        if len(states) < 2:
            return states
        out = []
        buckets = {}
        for s in states:
            key = (s.ctrl, s.eff, s.locks, s.ret)
            try:
                b = buckets.setdefault(key, [])
            except TypeError:
                out.append(s)
                continue
            for i, x in enumerate(b):
                if x[0].mem == s.mem:
                    x.append(s)
                    break
            else:
                b.append([s])
        for b in buckets.values():
            for g in b:
                out += self.join_group(g)
        return out

    def join_group(self, g):
        """states with equal memory: as few as their facts allow without losing path information."""
        if len(g) == 1:
            return g
        out = []
        for f in join_all([x.facts for x in g], self.join_limit):
            m = g[0].copy()
            m.facts = f
            out.append(m)
        return out

    def s_block(self, n, st, fr):
        states = [st]
        decls = []
        for c in n['b']:
            if c is not None and c['k'] == 'decl':
                decls += c['v']
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                else:
                    nxt += self.exec(c, s, fr)
            states = self.merge(nxt)
        return self.scope_exit(states, decls, fr, n.get('le', n.get('l')))

    def scope_exit(self, states, decls, fr, line):
        for d in reversed(decls):
            if d.get('static'):
                continue
            t = d['t']
            if t.endswith('&'):
                continue
            nxt = []
            for s in states:
                loc = ('v', fr.id, d['n'], d['id'])
                if loc not in s.mem and not self.has_subs(s, loc):
                    nxt.append(s)
                    continue
                nxt += self.destroy(s, fr, loc, self.strip(t), line)
            states = nxt
        return states

    def destroy(self, st, fr, loc, t, line):
        r = models.destroy(self, st, fr, loc, t, line)
        if r is not None:
            return r
        rec = self.db.recs.get(t)
        if rec is not None:
            for m in rec['methods']:
                if m.get('dtor') and not m.get('defaulted'):
                    f = self.db.fns.get(m['key'])
                    if f is not None:
                        ctrl, ret = st.ctrl, st.ret
                        s0 = st.copy()
                        s0.ctrl = None
                        out = []
                        self.unwinding += ctrl is not None and ctrl[0] == 'throw'
                        try:
                            rs = self.invoke(f, s0, loc, [], {'l': line}, fr)
                        finally:
                            self.unwinding -= ctrl is not None and ctrl[0] == 'throw'
                        for s2, _ in rs:
                            if s2.ctrl is None:
                                s2.ctrl = ctrl
                                s2.ret = ret
                                out += self.destroy_parts(s2, fr, loc, t, line)
                            else:
                                out.append(s2)
                        return out
            return self.destroy_parts(st, fr, loc, t, line)
        return [st]

    def destroy_parts(self, st, fr, loc, t, line):
        parts = [(('fl', loc, f['n']), f['t']) for f, _ in self.db.all_fields(t) if not f['t'].endswith('&') and models.ends(self, f['t'])]
        return models.ended(self, st, fr, parts[::-1], line) if parts else [st]

    def s_null(self, n, st, fr):
        return [st]

    def s_expr(self, n, st, fr):
        return self.merge([s for s, _ in self.eval(n['e'], st, fr)])

    def s_decl(self, n, st, fr):
        states = [st]
        for v in n['v']:
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                    continue
                nxt += self.declare(v, s, fr)
            states = nxt
        return states

    def declare(self, v, st, fr):
        loc = ('v', fr.id, v['n'], v['id'])
        isref = v['t'].endswith('&')
        self.loct[loc] = v['t']
        if isref:
            fr.refs.add(v['id'])
        out = []
        if v.get('init') is None:
            st.mem[loc] = ('app', 'uninit', ('n', v['n']))
            return [st]
        st = st.copy()
        st.mem[('cur', fr.id)] = ('ptr', loc)
        if not isref and v['init']['k'] == 'ctor':
            self.places[(id(v['init']), fr.id)] = loc
        for s, x in self.eval(v['init'], st, fr):
            if s.ctrl is None:
                if not isref and v['init'].get('lv') and x[0] == 'ptr':
                    x = self.read(s, x[1], v['t'])
                if not isref:
                    for l in [l for l in s.mem if self.is_under(l, loc)]:
                        del s.mem[l]
                s.mem[loc] = x
                for b in v.get('bind', ()):
                    if b.get('hv'):
                        # tuple-like: get<i>
                        fr.refs.add(b['hv']['id'])
                        hl = ('v', fr.id, b['hv']['n'], b['hv']['id'])
                        idx = v['bind'].index(b)
                        tgt = self.as_loc(x) if isref else loc
                        fname = ('first', 'second')[idx] if idx < 2 and 'pair' in self.strip(v['t']) else f'get{idx}'
                        fr.binds[b['id']] = self.pair_ref(s, ('fl', tgt, fname), v['t'])
                    elif b.get('e') is not None:
                        fr.binds[b['id']] = b['e']
            out.append(s)
        return out

    def s_if(self, n, st, fr):
        states = [st]
        decls = []
        if n.get('init'):
            if n['init']['k'] == 'decl':
                decls += n['init']['v']
            states = self.exec(n['init'], st, fr)
        if n.get('cv'):
            decls.append(n['cv'])
            nxt = []
            for s in states:
                nxt += self.declare(n['cv'], s, fr)
            states = nxt
        out = []
        for s in states:
            for s1, c in self.rv(n['c'], s, fr):
                if s1.ctrl is not None:
                    out.append(s1)
                    continue
                for s2, t in self.branch(s1, c):
                    if t:
                        out += self.exec(n['th'], s2, fr)
                    elif n.get('el'):
                        out += self.exec(n['el'], s2, fr)
                    else:
                        out.append(s2)
        if decls:
            out = self.scope_exit(out, decls, fr, n['l'])
        return self.merge(out)

    def s_return(self, n, st, fr):
        if n.get('e') is None:
            st = st.copy()
            st.ctrl = ('ret', n['l'])
            return [st]
        out = []
        isref = (fr.fn.get('ret') or '').endswith('&')
        for s, v in self.eval(n['e'], st, fr):
            if s.ctrl is None:
                if not isref and n['e'].get('lv') and v[0] == 'ptr':
                    v = self.read(s, v[1], fr.fn.get('ret'))
                s = s.copy()
                s.ctrl = ('ret', n['l'])
                s.ret = v
            out.append(s)
        return out

    def s_break(self, n, st, fr):
        st = st.copy()
        st.ctrl = ('brk',)
        return [st]

    def s_continue(self, n, st, fr):
        st = st.copy()
        st.ctrl = ('cont',)
        return [st]

    def s_label(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    def s_case(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    def s_default(self, n, st, fr):
        return self.exec(n['b'], st, fr)

    def flatten_switch(self, b):
        """[(labels, stmt)] in order; labels: list of ('case', node)/('default',)"""
        items = []
        stmts = b['b'] if b['k'] == 'block' else [b]
        for s in stmts:
            labels = []
            while s is not None and s['k'] in ('case', 'default'):
                if s['k'] == 'case':
                    labels.append(('case', s['v'], s.get('v2')))
                else:
                    labels.append(('default',))
                s = s['b']
            items.append((labels, s))
        return items

    def s_switch(self, n, st, fr):
        states = [st]
        decls = []
        if n.get('init'):
            states = self.exec(n['init'], st, fr)
            if n['init']['k'] == 'decl':
                decls += n['init']['v']
        items = self.flatten_switch(n['b'])
        out = []
        for s0 in states:
            if n.get('cv'):
                ss = self.declare(n['cv'], s0, fr)
                decls.append(n['cv'])
            else:
                ss = [s0]
            for s1 in ss:
                for s, v in self.rv(n['c'], s1, fr):
                    if s.ctrl is not None:
                        out.append(s)
                        continue
                    rest = [s]
                    dflt = None
                    for i, (labels, _) in enumerate(items):
                        if v[0] == 'btab' and len(labels) > 1:
                            # the labels of one statement as one set of byte values
                            tab = self.label_table(labels, s, fr, v)
                            if tab is not None:
                                if any(lb[0] == 'default' for lb in labels):
                                    dflt = i
                                nrest = []
                                for r in rest:
                                    for a, t in self.branch(r, norm_btab(v[1], tab)):
                                        if t:
                                            out += self.run_switch_from(items, i, a, fr)
                                        else:
                                            nrest.append(a)
                                rest = nrest
                                continue
                        for lb in labels:
                            if lb[0] == 'default':
                                dflt = i
                                continue
                            nrest = []
                            for r in rest:
                                cvv = self.eval(lb[1], r, fr)[0][1]
                                if lb[2] is not None:
                                    hi = self.eval(lb[2], r, fr)[0][1]
                                    c1 = self.cmp('<=', cvv, v)
                                    for a, t1 in self.branch(r, c1):
                                        if not t1:
                                            nrest.append(a)
                                            continue
                                        for b_, t2 in self.branch(a, self.cmp('<=', v, hi)):
                                            if t2:
                                                out += self.run_switch_from(items, i, b_, fr)
                                            else:
                                                nrest.append(b_)
                                    continue
                                for a, t in self.branch(r, self.cmp('==', v, cvv)):
                                    if t:
                                        out += self.run_switch_from(items, i, a, fr)
                                    else:
                                        nrest.append(a)
                            rest = nrest
                    for r in rest:
                        # an enumeration value outside the enumerators is not considered
                        if dflt is not None:
                            out += self.run_switch_from(items, dflt, r, fr)
                        else:
                            out.append(r)
        for s in out:
            if s.ctrl is not None and s.ctrl[0] == 'brk':
                s.ctrl = None
        return self.merge(self.scope_exit(out, decls, fr, n['l']))

    def label_table(self, labels, st, fr, v):
        tab = [0] * 256
        for lb in labels:
            if lb[0] == 'default':
                continue
            lo = self.eval(lb[1], st, fr)[0][1]
            hi = lo if lb[2] is None else self.eval(lb[2], st, fr)[0][1]
            if not is_int(lo) or not is_int(hi):
                return None
            for k in range(256):
                if lo[1] <= v[2][k] <= hi[1]:
                    tab[k] = 1
        return tuple(tab)

    def run_switch_from(self, items, i, st, fr):
        states = [st]
        for _, body in items[i:]:
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    nxt.append(s)
                else:
                    nxt += self.exec(body, s, fr)
            states = self.merge(nxt)
            if all(s.ctrl is not None for s in states):
                break
        return [s if s.ctrl is None else s.copy() for s in states]

    def s_try(self, n, st, fr):
        out = []
        body = self.exec(n['b'], st, fr)
        mark = len(st.eff)
        thrown = []
        for s in body:
            if s.ctrl is not None and s.ctrl[0] == 'throw':
                thrown.append(s)
            else:
                out.append(s)
        for s in thrown:
            out += self.handle(n, s, fr)
        # any opaque call inside the block may throw: analyse each handler from a widened state as well
        calls = any(x[0] in ('call', 'icall', 'ctor', 'loop', 'wait', 'throw') for b in body for x in b.eff[mark:])
        if (not thrown or self.throwing) and calls and not self.only_throws:
            for h in n['h']:
                s = st.copy()
                # havoc what the block may have changed
                changed = {}
                for b in body:
                    for l, v in b.mem.items():
                        if st.mem.get(l) != v and l in st.mem:
                            changed[l] = v
                for l in changed:
                    s.mem[l] = self.fresh('try')
                s.ev('maythrow', n['l'])
                if h.get('var'):
                    fr.refs.add(h['var']['id'])
                    s.mem[('v', fr.id, h['var']['n'], h['var']['id'])] = ('ptr', ('d', self.fresh('exc')))
                out += self.exec(h['b'], s, fr)
        return self.merge(out)

    def handle(self, n, s, fr):
        et = s.ctrl[2]
        for h in n['h']:
            t = h.get('t')
            if t is None or et is None or self.exc_match(self.strip(et), self.strip(t)):
                s2 = s.copy()
                s2.ctrl = None
                if h.get('var'):
                    loc = ('v', fr.id, h['var']['n'], h['var']['id'])
                    if h['var']['t'].endswith('&'):
                        fr.refs.add(h['var']['id'])
                        s2.mem[loc] = ('ptr', self.temp(s2, s.ctrl[1]))
                    else:
                        s2.mem[loc] = s.ctrl[1]
                s2.ev('caught', s.ctrl[1], n['l'])
                return self.exec(h['b'], s2, fr)
        return [s]

    def exc_match(self, et, t):
        if et == t:
            return True
        todo = [et]
        seen = set()
        while todo:
            x = todo.pop()
            if x == t:
                return True
            if x in seen:
                continue
            seen.add(x)
            r = self.db.recs.get(x)
            if r:
                todo += r['bases']
            todo += models.STD_EXC_BASES.get(x, [])
        return False

    # ------------------------------------------------------------------ loops
    def s_for(self, n, st, fr):
        decls = []
        states = [st]
        if n.get('init'):
            states = self.exec(n['init'], st, fr)
            if n['init']['k'] == 'decl':
                decls = n['init']['v']
        out = []
        for s in states:
            out += self.loop(n, s, fr, n.get('c'), n.get('inc'), n['b'], 'for')
        return self.merge(self.scope_exit(out, decls, fr, n['l']))

    def s_while(self, n, st, fr):
        if n.get('cv'):
            raise Undecided('while with condition variable')
        return self.merge(self.loop(n, st, fr, n['c'], None, n['b'], 'while'))

    def s_do(self, n, st, fr):
        # body once, then an ordinary while loop
        out = []
        for s in self.exec(n['b'], st, fr):
            if s.ctrl is not None and s.ctrl[0] == 'brk':
                s.ctrl = None
                out.append(s)
            elif s.ctrl is not None and s.ctrl[0] != 'cont':
                out.append(s)
            else:
                s.ctrl = None
                c = n['c']
                if c.get('cv') == '0' or (c['k'] == 'int' and c['v'] == '0'):
                    out.append(s)
                else:
                    out += self.loop(n, s, fr, n['c'], None, n['b'], 'do')
        return self.merge(out)

    def loop(self, n, st, fr, cond, inc, body, kind):
        # 1. bounded concrete unrolling while the condition is decided
        out = []
        states = [st.copy()]
        for it in range(self.unroll + 1):
            nxt = []
            for s in states:
                if s.ctrl is not None:
                    out.append(s)
                    continue
                rs = self.rv(cond, s, fr) if cond is not None else [(s, TRUE)]
                undecided = False
                branches = []
                for s1, c in rs:
                    if s1.ctrl is not None:
                        out.append(s1)
                        continue
                    t = self.truth(s1, c)
                    if t is None:
                        if self.fork and len(states) < self.fork:
                            branches += self.branch(s1, c)
                            continue
                        undecided = True
                        break
                    branches.append((s1, t))
                if it > 0 and not self.fork and (undecided or it == self.unroll or cond is None):
                    # not a loop of a known number of iterations: one generic iteration from the start instead
                    return self.widened_loop(n, st.copy(), fr, cond, inc, body, kind)
                if undecided or it == self.unroll:
                    out += self.widened_loop(n, s, fr, cond, inc, body, kind)
                    continue
                if cond is None and it == 0 and not self.fork:
                    out += self.widened_loop(n, s, fr, cond, inc, body, kind)
                    continue
                for s1, t in branches:
                    if not t:
                        out.append(s1)
                        continue
                    for s2 in self.exec(body, s1, fr):
                        if s2.ctrl is not None and s2.ctrl[0] == 'brk':
                            s2.ctrl = None
                            out.append(s2)
                            continue
                        if s2.ctrl is not None and s2.ctrl[0] == 'cont':
                            s2.ctrl = None
                        if s2.ctrl is not None:
                            out.append(s2)
                            continue
                        if inc is not None:
                            nxt += [x for x, _ in self.eval(inc, s2, fr)]
                        else:
                            nxt.append(s2)
            states = self.merge(nxt)
            if not states:
                break
        return out

    def one_iter(self, st, fr, cond, inc, body, pre=None):
        """generic iteration from head state st: (ends, breaks, leaves, exits)."""
        ends, breaks, leaves, exits = [], [], [], []
        st = st.copy()
        rs = self.rv(cond, st, fr) if cond is not None else [(st, TRUE)]
        for s1, c in rs:
            if s1.ctrl is not None:
                leaves.append(s1)
                continue
            for s2, t in self.branch(s1, c):
                if not t:
                    exits.append(s2)
                    continue
                for s2b in (pre(s2) if pre else [s2]):
                    for s3 in self.exec(body, s2b, fr):
                        if s3.ctrl is not None and s3.ctrl[0] == 'brk':
                            s3.ctrl = None
                            breaks.append(s3)
                            continue
                        if s3.ctrl is not None and s3.ctrl[0] == 'cont':
                            s3.ctrl = None
                        if s3.ctrl is not None:
                            leaves.append(s3)
                            continue
                        if inc is not None:
                            ends += [x for x, _ in self.eval(inc, s3, fr)]
                        else:
                            ends.append(s3)
        return ends, breaks, leaves, exits

    # ---- loop-carried values: a changed location is an opaque symbol, or a template with integer holes
    def tmpl_init(self, v):
        """template of a loop-carried value guessed from its entry value (None: opaque)."""
        if v[0] == 'ptr' and v[1][0] in ('chr', 'el') and self.intlike(v[1][2]):
            return ('ptr', (v[1][0], v[1][1], ('?', 'i')))
        return None

    def tmpl_match(self, t, v):
        """values of the holes, or None."""
        if t[0] == 'ptr':
            if v[0] == 'ptr' and v[1][0] == t[1][0] and v[1][1] == t[1][1] and self.intlike(v[1][2]):
                return {'i': v[1][2]}
            return None
        if t[0] == 'app' and t[1] == 'substr':
            if v == t[2]:
                return {'p': ZERO, 'n': slen(v)}
            if v == ('str', ()):
                return {'p': ZERO, 'n': ZERO}
            if v[0] == 'app' and v[1] == 'substr' and v[2] == t[2]:
                return {'p': v[3], 'n': v[4]}
        return None

    def tmpl_fill(self, t, l, lid):
        def h(x):
            return ('app', 'lv', ('i', lid), l, ('n', x))
        if t[0] == 'ptr':
            return ('ptr', (t[1][0], t[1][1], h('i'))), {'i': h('i')}
        return ('app', 'substr', t[2], h('p'), h('n')), {'p': h('p'), 'n': h('n')}

    def widened_loop(self, n, st, fr, cond, inc, body, kind, pre=None, loopinfo=None):
        self.n += 1
        lid = self.n
        L = Loop(lid, n['l'], kind)
        nb = len(self.bounds)
        # find the locations the body may change (fixpoint)
        changed = set()
        tm = {}
        banned = set()
        for _ in range(16):
            # an object whose fields are tracked one by one is kept exploded
            whole = [l for l in changed if any(x != l and self.is_under(x, l) for x in changed)]
            if whole:
                st = st.copy()
                for l in whole:
                    if l in st.mem:
                        self.explode(st, l)
                    changed.discard(l)
                    tm.pop(l, None)
            head, syms = self.make_head(st, changed, lid, tm)
            head.eff = ()
            del self.bounds[nb:]
            ends, breaks, leaves, exits = self.one_iter(head, fr, cond, inc, body, pre)
            new = set()
            again = False
            for e in ends:
                for l, v in e.mem.items():
                    if l[0] == 'cur':
                        continue
                    if head.mem.get(l) != v and self.value_now(head, l) != v and (l in st.mem or self.nonlocal_loc(l) or self.is_sub_of_known(st, l)):
                        new.add(l)
                for l in head.mem:
                    if l not in e.mem and l[0] != 'cur' and self.value_now(e, l) != head.mem[l]:
                        new.add(l)
                for l in changed:
                    v = self.value_now(e, l)
                    if l in tm:
                        if self.tmpl_match(tm[l], v) is None:
                            del tm[l]
                            banned.add(l)
                            again = True
                    elif l not in banned:
                        x = syms.get(l)
                        old = self.value_now(st, l)
                        if v[0] == 'app' and v[1] == 'substr' and v[2] == x:
                            b = old[2] if old[0] == 'app' and old[1] == 'substr' else old
                            tm[l] = ('app', 'substr', b)
                            again = True
            new = {l for l in new if l not in changed}
            for l in new:
                t = self.tmpl_init(self.value_now(st, l))
                if t is not None and l not in banned:
                    tm[l] = t
            if not new and not again:
                break
            changed |= new
        else:
            raise Undecided(f'loop at line {n["l"]} does not stabilise')
        # candidate linear invariants
        e0 = self.slots(st, changed, tm)
        cands = self.candidates(st, e0, syms, ends[:8] + exits[:4])
        while True:
            head, syms = self.make_head(st, changed, lid, tm)
            head.eff = ()
            del self.bounds[nb:]
            ok = True
            for c in cands:
                ok = head.facts.add_ge0(c(syms), self.ranges) and ok
            ends, breaks, leaves, exits = self.one_iter(head, fr, cond, inc, body, pre)
            bad = []
            for c in cands:
                for e in ends:
                    g = c(self.slots(e, changed, tm))
                    if g is None or not e.facts.proves_ge0(g, self.ranges):
                        bad.append(c)
                        break
            if not bad:
                break
            cands = [c for c in cands if c not in bad]
        L.entry = e0
        L.head = dict(syms)
        L.tm = dict(tm)
        L.changed = set(changed)
        L.bodies = ends
        L.ends = [self.slots(e, changed, tm) for e in ends]
        L.exits = exits
        L.breaks = breaks
        L.leaves = leaves
        L.headst = head
        L.invariants = [c(syms) for c in cands]
        if loopinfo:
            loopinfo(L)
        out = []
        for e in exits + breaks:
            e2 = e.copy()
            inner = e2.eff
            e2.eff = st.eff + (('loop', L),) + tuple(x for x in inner)
            out.append(e2)
        for e in leaves:
            e2 = e.copy()
            e2.eff = st.eff + (('loop', L),) + tuple(e.eff)
            out.append(e2)
        if not out:
            self.endless.append((fr.fn.get('q'), n.get('l'), st.copy()))
        return out

    def slots(self, st, changed, tm):
        """values of the loop-carried slots in state st."""
        m = {}
        for l in changed:
            v = self.value_now(st, l)
            if l in tm:
                h = self.tmpl_match(tm[l], v)
                for k in (('i',) if tm[l][0] == 'ptr' else ('p', 'n')):
                    m[('slot', l, k)] = h[k] if h else None
            else:
                m[l] = v
        return m

    def is_sub_of_known(self, st, l):
        r = l
        while r[0] in ('fl', 'el', 'base'):
            r = r[1]
            if r in st.mem or ('fl', r, '$new') in st.mem:
                return True
        return False

    def loc_type(self, l):
        if l[0] in ('v', 't'):
            return self.loct.get(l)
        if l[0] == 'fl':
            pt = self.loc_type(l[1])
            r = self.rec_of(pt) if pt else None
            if r is not None:
                for f, _ in self.db.all_fields(r['t']):
                    if f['n'] == l[2]:
                        return f['t']
        return None

    def value_now(self, st, l):
        v = st.mem.get(l)
        if v is not None:
            return v
        return self.read(st, l)

    def make_head(self, st, changed, lid, tm=None):
        tm = tm or {}
        head = st.copy()
        syms = {}
        for l in changed:
            old = self.value_now(st, l)
            for k in [k for k in head.mem if self.is_under(k, l)]:
                del head.mem[k]
            if l in tm:
                v, holes = self.tmpl_fill(tm[l], l, lid)
                oh = self.tmpl_match(tm[l], old) or {}
                for k, x in holes.items():
                    self.ranges.setdefault(x, (None, None))
                    syms[('slot', l, k)] = x
                head.mem[l] = v
                continue
            sym = ('app', 'lv', ('i', lid), l)
            rng = self.val_range(old)
            lt = self.loc_type(l)
            if rng is not None:
                self.ranges[sym] = rng
            elif lt is not None:
                sym = self.opaque_value(sym, lt)
            elif old[0] == 'i' and l[0] == 'fl' and l[2][:1] == '$':
                self.ranges[sym] = (0, None)
            head.mem[l] = sym
            syms[l] = sym
        return head, syms

    def val_range(self, v):
        if v in self.ranges:
            return self.ranges[v]
        if v[0] in ('i', 'lin', 'btab', 'bvec'):
            return (None, None)
        if v[0] == 'app' and v[1] in ('size', 'count'):
            return (0, None)
        return None

    def candidates(self, st, e0, syms, ends):
        """linear invariants (functions of the slot values) that hold on entry."""
        cands = []
        ints = [k for k, v in e0.items() if v is not None and self.intlike(v)]

        def ok(v):
            return v is not None and self.intlike(v)
        for k in ints:
            old = e0[k]
            cands.append(lambda m, k=k, old=old: sub(m[k], old) if ok(m.get(k)) else None)
            cands.append(lambda m, k=k, old=old: sub(old, m[k]) if ok(m.get(k)) else None)
            if st.facts.proves_ge0(old, self.ranges):
                cands.append(lambda m, k=k: m[k] if ok(m.get(k)) else None)
            if old[0] == 'i' and self.ranges.get(syms.get(k)) == (0, 1):
                continue
        # element counts of changed containers
        for k, old in e0.items():
            if old is None or syms.get(k) is None or not (old[0] in ('seq', 'str') or old[0] == 'app' and old[1] in ('upd', 'filled', 'push', 'cat', 'substr', 'blit')):
                continue
            n0 = self.csize(old)

            def cz(m, k=k):
                return self.csize(m[k]) if m.get(k) is not None else None
            cands.append(lambda m, cz=cz, n0=n0: sub(cz(m), n0) if cz(m) is not None else None)
            cands.append(lambda m, cz=cz, n0=n0: sub(n0, cz(m)) if cz(m) is not None else None)
            for a in ints[:6]:
                o = sub(n0, e0[a])
                cands.append(lambda m, cz=cz, a=a, o=o: sub(sub(cz(m), m[a]), o) if cz(m) is not None and ok(m.get(a)) else None)
                cands.append(lambda m, cz=cz, a=a, o=o: sub(o, sub(cz(m), m[a])) if cz(m) is not None and ok(m.get(a)) else None)
        # relations between changed ints and loop-invariant terms seen at the end of an iteration
        conds = []
        for e in ends:
            for f in e.facts.lin:
                if f not in st.facts.lin:
                    conds.append(f)
        rev = {v: k for k, v in syms.items()}
        inv = []
        for f in conds:
            d, k = lin_parts(f)
            if any(a in rev for a in d) and f not in inv:
                inv.append(f)
        for f in inv[:40]:
            d, k = lin_parts(f)
            for slack in (0, 1, 2, 3):
                def g(m, d=d, k=k, slack=slack):
                    r = I(k + slack)
                    for a, c in d.items():
                        if a in rev:
                            v = m.get(rev[a])
                            if not ok(v):
                                return None
                            r = add(r, scale(v, c))
                        else:
                            r = add(r, scale(a, c))
                    return r
                cands.append(g)
        # pairwise relations between loop-carried ints
        for a in ints:
            for b in ints:
                if a != b:
                    o = sub(e0[a], e0[b])

                    def pd(m, a=a, b=b, o=o):
                        return sub(sub(m[a], m[b]), o) if ok(m.get(a)) and ok(m.get(b)) else None
                    cands.append(pd)

                    def ps(m, a=a, b=b, o=add(e0[a], e0[b])):
                        return sub(add(m[a], m[b]), o) if ok(m.get(a)) and ok(m.get(b)) else None
                    cands.append(ps)

                    def ns(m, a=a, b=b, o=add(e0[a], e0[b])):
                        return sub(o, add(m[a], m[b])) if ok(m.get(a)) and ok(m.get(b)) else None
                    cands.append(ns)
        out = []
        seen = set()
        for c in cands:
            x = c(e0)
            if x is not None and st.facts.proves_ge0(x, self.ranges):
                y = c(syms)
                if y is None or y in seen or y[0] == 'i':
                    continue
                seen.add(y)
                out.append(c)
        return out

    def s_rfor(self, n, st, fr):
        states = [st]
        if n.get('init'):
            states = self.exec(n['init'], st, fr)
        if n.get('parts'):
            # an iterator of the analysed code: the loop as the language defines it
            for p in n['parts']:
                states = [s2 for s in states for s2 in ([s] if s.ctrl is not None else self.exec(p, s, fr))]
            body = {'k': 'block', 'l': n['l'], 'b': [n['vd'], n['b']]}
            out = []
            for s in states:
                out += [s] if s.ctrl is not None else self.loop(n, s, fr, n['c'], n['inc'], body, 'for')
            return self.merge(out)
        out = []
        for s in states:
            for s1, r in self.eval(n['r'], s, fr):
                if s1.ctrl is not None:
                    out.append(s1)
                    continue
                out += self.range_loop(n, s1, fr, r)
        return self.merge(out)

    def sub_range(self, st, fr, n, cloc):
        """(state, place, elements) of the range a record of the analysed code stands for, when its bounds are known places in one container."""
        rec = self.db.recs.get(self.strip(n['r'].get('t', '')))
        if rec is None or self.strip(rec['t']) in models.VALUE_TYPES:
            return None
        ends = []
        for m in ('begin', 'end'):
            fs = [f for f in (self.db.fns.get(x['key']) for x in rec['methods']) if f is not None and f['q'].split('::')[-1] == m]
            fs = [f for f in fs if f.get('const')] or fs
            if not fs:
                return None
            rs = self.invoke(fs[0], st, cloc, [], n, fr)
            if len(rs) != 1 or rs[0][0].ctrl is not None or rs[0][1][0] != 'ptr' or rs[0][1][1][0] != 'el':
                return None
            st = rs[0][0]
            ends.append(rs[0][1][1])
        (_, base, i), (_, base2, j) = ends
        if base != base2:
            return None
        cv = self.read(st, base)
        if i == ZERO and j == self.csize(cv):
            return st, base, cv
        if i == ZERO and j[0] == 'i' and 0 <= j[1] <= self.unroll:
            return st, base, ('seq', tuple(self.select(st, cv, I(k), None) for k in range(j[1])))
        return None

    def range_loop(self, n, st, fr, r):
        v = n['var']
        isref = v['t'].endswith('&')
        if r[0] == 'ptr':
            cloc = r[1]
            cval = self.read(st, cloc, n['r'].get('t'))
        else:
            cval = r
            cloc = self.temp(st, cval)
        part = self.sub_range(st, fr, n, cloc)
        if part is not None:
            st, cloc, cval = part
        if isref:
            fr.refs.add(v['id'])
        vloc = ('v', fr.id, v['n'], v['id'])

        def bind(s, elem_loc, elem_val):
            s = s.copy()
            if v.get('bind'):
                fake = dict(v)
                s.mem[vloc] = ('ptr', elem_loc) if isref else elem_val
                for i, b in enumerate(v['bind']):
                    tgt = elem_loc if isref else vloc
                    if b.get('hv'):
                        fr.binds[b['id']] = self.pair_ref(s, ('fl', tgt, ('first', 'second')[i] if i < 2 else f'get{i}'), v['t'])
                    elif b.get('e') is not None:
                        fr.binds[b['id']] = b['e']
                return s
            s.mem[vloc] = ('ptr', elem_loc) if isref else elem_val
            return s
        et = self.strip(v['t'])

        def each(elems, st=st):
            states = [st]
            out = []
            for loc, e in elems:
                nxt = []
                for s in states:
                    for s2 in self.exec(n['b'], bind(s, loc, e), fr):
                        if s2.ctrl is not None and s2.ctrl[0] == 'brk':
                            s2.ctrl = None
                            out.append(s2)
                        elif s2.ctrl is not None and s2.ctrl[0] == 'cont':
                            s2.ctrl = None
                            nxt.append(s2)
                        elif s2.ctrl is not None:
                            out.append(s2)
                        else:
                            nxt.append(s2)
                states = self.merge(nxt)
            return out + states
        if cval[0] == 'seq' or (cval[0] == 'str' and all(p[0] != 's' for p in cval[1])):
            if cval[0] == 'str':
                elems = []
                for p in cval[1]:
                    if p[0] == 'lit':
                        elems += [I(wrap(c, 8, True)) for c in p[1]]
                    else:
                        elems.append(p[1])
            else:
                elems = list(cval[1])
            if len(elems) <= self.unroll:
                return each([(('el', cloc, I(i)), self.elem_conv(st, e, n, et)) for i, e in enumerate(elems)])
        base = cval
        while base[0] == 'app' and base[1] == 'upd':
            base = base[2]
        if base is not cval and base[0] == 'seq' and len(base[1]) <= self.unroll:
            # an array some element of which was assigned
            return each([(('el', cloc, I(i)), self.elem_conv(st, self.read(st, ('el', cloc, I(i)), self.elem_type(n, et)), n, et)) for i in range(len(base[1]))])
        ents = models.entries(self, st, cval) if cval[0] == 'app' and cval[1] in ('mput', 'merase') else None
        if ents is not None and len(ents) <= self.unroll:
            m = models.head(self.strip(n['r'].get('t', '')))
            return [y for s, es in models.in_order(self, st, self.strip(n['r'].get('t', '')), ents)
                    for y in each([(('el', cloc, ('app', 'mkey', k)), ('st', 'std::pair', (('first', k), ('second', v))) if 'map' in m else k) for k, v in es], s)]
        # generic iteration over an unknown number of elements
        size = self.csize(cval)
        self.n += 1
        it = ('app', 'iter', ('i', self.n))
        self.ranges[it] = (0, None)
        isstr = models.is_stringy(n['r'].get('t', ''))
        eloc = ('chr', cval, it) if isstr else ('el', cloc, it)
        more = ('app', 'more', it, cval)

        def pre(s):
            s = s.copy()
            if not s.facts.add_ge0(sub(sub(size, it), I(1)), self.ranges):
                return []
            ev = self.read(s, eloc, self.elem_type(n, et))
            return [bind(s, eloc, self.elem_conv(s, ev, n, et))]

        def info(L):
            L.container = cval
            L.cloc = cloc
            L.elem = eloc
            L.iter = it
        cond = {'k': '_val', 't': 'bool', 'l': n['l'], 'val': more}
        st = st.copy()
        return self.widened_loop(n, st, fr, cond, None, n['b'], 'rfor', pre, info)

    def s__py(self, n, st, fr):
        return n['f'](st, fr)

    def x__val(self, n, st, fr):
        return [(st, n['val'])]

    def elem_type(self, n, et):
        rt = n['r'].get('t', '')
        if models.is_stringy(rt):
            return 'char'
        return et

    def elem_conv(self, st, v, n, et):
        rt = n['r'].get('t', '')
        if models.is_stringy(rt) and et in ('unsigned char', 'char'):
            return self.convert(st, v, 'char', et) if et in self.db.types else v
        return v

    # ------------------------------------------------------------------ entry point
    def run(self, f, this_cls=None, this=None, args=None, init=None, setup=None):
        """analyse function f from an arbitrary initial state; returns list of end states
        (st.ctrl None => normal return with st.ret; ('throw'..), ('abort',))."""
        st = St()
        st.cls = {}
        if (f.get('cls') and not f.get('static') and not f.get('lambda')) or this is not None:
            if this is None:
                this = ('d', ('app', 'this'))
            c = this_cls or f.get('clst')
            if c:
                st.cls[this] = c
        vs = []
        for i, p in enumerate(f['params']):
            if args is not None and i < len(args) and args[i] is not None:
                v = args[i]
            elif p['t'].endswith('&'):
                v = ('ptr', ('d', ('app', 'param', ('n', p['n'] or f'#{i}'))))
            else:
                v = self.opaque_value(('app', 'param', ('n', p['n'] or f'#{i}')), p['t'])
                r = self.rec_of(p['t'])
                if r is not None and self.strip(p['t']) not in models.VALUE_TYPES:
                    v = ('st', r['t'], tuple((x['n'], self.opaque_value(('app', 'fld', v, ('n', x['n'])), x['t'])) for x, _ in self.db.all_fields(r['t'])))
            vs.append(v)
        if setup:
            setup(st)
        fr = Frame({'key': 'entry', 'q': 'entry'})
        res = []
        ct = None
        if f.get('ctor'):
            ct = f.get('clst')
        for s, v in self.invoke(f, st, this, vs, {'l': f['line']}, fr, ctor_type=ct):
            s.ret = v
            res.append(s)
        return res
