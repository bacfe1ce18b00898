"""Library calls over abstract values."""
import re

from .terms import *
from . import models as M

HEX = '0123456789abcdef'


def ret_ptr(base):
    return ('ptr', base)


def unk(eng, q):
    eng.unknown[q] = eng.unknown.get(q, 0) + 1


# ------------------------------------------------------------------------------------------------ streams
def sfield(eng, st, loc, f, dflt):
    l = ('fl', loc, f)
    v = st.mem.get(l)
    if v is not None:
        return v
    pv = st.mem.get(loc)
    if pv is None:
        pv = eng.parent_value(st, l)
    if pv is not None and pv[0] == 'st':
        for n, x in pv[2]:
            if n == f:
                return x
    if f == '$buf':
        return ('app', 'init', l)
    return dflt


def sset(eng, st, loc, f, v):
    pv = st.mem.get(loc)
    if pv is not None and pv[0] != 'st':
        st.mem[loc] = ('st', '$stream', (('$buf', ('app', 'init', ('fl', loc, '$buf'))),) + M.EMPTY_STREAM[2][1:])
    eng.write(st, ('fl', loc, f), v, 0, log=False)


def digits(n, base, up):
    if n == 0:
        return '0'
    s = ''
    neg = n < 0
    n = abs(n)
    while n:
        s = HEX[n % base] + s
        n //= base
    s = ('-' if neg else '') + s
    return s.upper() if up else s


def fmt_int(eng, st, v, base, w, fill, up, t):
    """string value of a formatted integer."""
    if base[0] != 'i' or w[0] != 'i' or fill[0] != 'i':
        return mk_str((('s', ('app', 'fmt', v, base, w, fill)),))
    b, wd, fc = base[1], w[1], chr(fill[1] & 255)
    ti = eng.tinfo(t)
    bits = ti.get('w', 64)

    def one(x):
        if b != 10 and x < 0:
            x &= (1 << bits) - 1
        return digits(x, b, up == TRUE).rjust(wd, fc)
    if v[0] == 'i':
        return lit(one(v[1]))
    if v[0] == 'btab':
        m = st.facts.mask(v[1])
        tab = {x: one(v[2][x]) for x in range(256) if m >> x & 1}
        ls = {len(s) for s in tab.values()}
        if len(ls) == 1:
            L = ls.pop()
            parts = []
            for i in range(L):
                parts.append(('chr', norm_btab(v[1], tuple(ord(tab[x][i]) if x in tab else ord(next(iter(tab.values()))[i])
                                                          for x in range(256)))))
            return mk_str(tuple(parts))
    if b == 10 and wd == 0:
        return mk_str((('s', ('app', 'dec', v)),))
    return mk_str((('s', ('app', 'fmt', v, base, w, fill, up)),))


def stream_put(eng, st, loc, sv, padded=True):
    st = st.copy()
    w = sfield(eng, st, loc, '$w', ZERO)
    if padded and w != ZERO:
        fill = sfield(eng, st, loc, '$fill', I(32))
        b = const_str(sv)
        n = slen(sv)
        if w[0] == 'i' and n[0] == 'i':
            if n[1] < w[1]:
                sv = concat(mk_str((('chr', fill),) * (w[1] - n[1])), sv)
        else:
            sv = mk_str((('s', ('app', 'padded', sv, w, fill)),))
        sset(eng, st, loc, '$w', ZERO)
    buf = sfield(eng, st, loc, '$buf', None)
    sset(eng, st, loc, '$buf', concat(buf, sv))
    if eng.nonlocal_loc(loc):
        st.ev('out', loc, sv)
    return st


def stream_int(eng, st, loc, v, t):
    base = sfield(eng, st, loc, '$base', I(10))
    w = sfield(eng, st, loc, '$w', ZERO)
    fill = sfield(eng, st, loc, '$fill', I(32))
    up = sfield(eng, st, loc, '$up', ZERO)
    if eng.tinfo(t).get('k') == 'bool':
        al = sfield(eng, st, loc, '$alpha', ZERO)
        out = []
        if al == TRUE:
            for s, b in eng.branch(st, v):
                out.append(stream_put(eng, s, loc, lit('true' if b else 'false')))
            return out
        for s, b in eng.branch(st, v):
            s = s.copy()
            out.append(stream_put(eng, s, loc, fmt_int(eng, s, I(b), I(10), w, fill, up, t), False))
            sset(eng, out[-1], loc, '$w', ZERO)
        return out
    s = fmt_int(eng, st, v, base, w, fill, up, t)
    st = stream_put(eng, st, loc, s, False)
    sset(eng, st, loc, '$w', ZERO)
    return [st]


MANIP = {'hex': ('$base', I(16)), 'dec': ('$base', I(10)), 'oct': ('$base', I(8)), 'uppercase': ('$up', TRUE),
         'nouppercase': ('$up', FALSE), 'boolalpha': ('$alpha', TRUE), 'noboolalpha': ('$alpha', FALSE)}


def stream_insert(eng, st, fr, n, loc, v, t, fnpt):
    """operator<<: [(st, ptr)]"""
    t = eng.strip(t or '')
    k = eng.tinfo(t).get('k')
    R = lambda s: (s, ('ptr', loc))
    if v[0] == 'app' and v[1] == 'fn':
        key = v[2][1]
        nm = re.findall(r'@F@([A-Za-z_]+)', key)
        nm = nm[-1] if nm else ''
        st = st.copy()
        if nm in MANIP:
            sset(eng, st, loc, *MANIP[nm])
            return [R(st)]
        if nm in ('endl',):
            return [R(stream_put(eng, st, loc, lit('\n'), False))]
        if nm in ('flush', 'ends', 'left', 'right', 'internal', 'fixed', 'scientific', 'showbase', 'noshowbase'):
            return [R(st)]
        f = eng.db.fns.get(key)
        if f is not None:
            return [R(s) for s, _ in eng.invoke(f, st, None, [('ptr', loc)], n, fr)]
        return [R(st)]
    if v[0] == 'app' and v[1] in ('setw', 'setfill', 'setbase'):
        st = st.copy()
        sset(eng, st, loc, {'setw': '$w', 'setfill': '$fill', 'setbase': '$base'}[v[1]], v[2])
        return [R(st)]
    if v[0] == 'app' and v[1].startswith('setprecision'):
        return [R(st)]
    if t in ('char', 'unsigned char', 'signed char'):
        return [R(stream_put(eng, st, loc, mk_str((('chr', v),))))]
    if k in ('int', 'bool'):
        return [R(s) for s in stream_int(eng, st, loc, v, t)]
    if k == 'enum':
        return [R(s) for s in stream_int(eng, st, loc, v, 'int')]
    if k == 'float':
        return [R(stream_put(eng, st, loc, mk_str((('s', ('app', 'fmtf', v)),))))]
    if M.is_stringy(t):
        return [R(stream_put(eng, st, loc, v))]
    if t in ('char *', 'const char *') or t.startswith('char[') or (v[0] == 'ptr' and v[1][0] in ('chr', 'lit')):
        return [R(stream_put(eng, st, loc, M.cstr(eng, st, v)))]
    if k == 'ptr' or v[0] in ('ptr', 'null'):
        return [R(stream_put(eng, st, loc, mk_str((('s', ('app', 'fmtp', v)),))))]
    return [R(stream_put(eng, st, loc, mk_str((('s', ('app', 'fmtv', v)),))))]


def m_stream(eng, st, fr, n, fn, base, vs, h, m):
    if fn.get('op') == '<<':
        pt = fn['pt'][0] if fn.get('pt') else ''
        v = M.val(eng, st, fn, 0, vs[0], n)
        return stream_insert(eng, st, fr, n, base, v, pt, pt)
    if m == 'str':
        if not vs:
            return [(st, sfield(eng, st, base, '$buf', None))]
        st = st.copy()
        sset(eng, st, base, '$buf', M.arg_str(eng, st, fn, 0, vs[0], n))
        return [(st, ('app', 'void'))]
    if m in ('put',):
        return [(stream_put(eng, st, base, mk_str((('chr', vs[0]),)), False), ('ptr', base))]
    if m == 'write':
        return [(stream_put(eng, st, base, M.range_str(eng, st, vs[0], vs[1]), False), ('ptr', base))]
    if m in ('width', 'fill'):
        f = '$w' if m == 'width' else '$fill'
        old = sfield(eng, st, base, f, ZERO if m == 'width' else I(32))
        if vs:
            st = st.copy()
            sset(eng, st, base, f, vs[0])
        return [(st, old)]
    if m == 'copyfmt':
        src = eng.as_loc(vs[0])
        st = st.copy()
        for f, d in (('$base', I(10)), ('$w', ZERO), ('$fill', I(32)), ('$up', ZERO), ('$alpha', ZERO)):
            sset(eng, st, base, f, sfield(eng, st, src, f, d))
        return [(st, ('ptr', base))]
    if m in ('flags', 'setf', 'unsetf', 'precision', 'flush', 'imbue'):
        if m == 'flags' and vs and vs[0][0] == 'app' and vs[0][1] == 'ioflags':
            st = st.copy()
            for f, x in vs[0][2][2]:
                sset(eng, st, base, f, x)
            return [(st, ('app', 'void'))]
        if m == 'flags':
            return [(st, ('app', 'ioflags', ('st', '', tuple((f, sfield(eng, st, base, f, d)) for f, d in
                                                             (('$base', I(10)), ('$up', ZERO), ('$alpha', ZERO))))))]
        return [(st, ('app', 'void'))]
    if m in ('good', 'operator bool'):
        return [(st, eng.opaque_value(('app', 'truthy', ('app', 'good', eng.read(st, base))), None))]
    if m in ('fail', 'bad', 'operator!'):
        return [(st, ('app', 'not', ('app', 'truthy', ('app', 'good', eng.read(st, base)))))]
    return None


# ------------------------------------------------------------------------------------------------ strings
def s_index(eng, st, fr, n, base, sv, idx, const, view, line):
    M.obligation(eng, st, fr, line, idx, eng.csize(sv))
    if const or view:
        return ('ptr', ('chr', sv, idx))
    return ('ptr', ('el', base, idx))


def m_string(eng, st, fr, n, fn, base, vs, h, m):
    view = h == M.VIEW
    sv = eng.read(st, base, fn['clst'])
    line = n.get('l')
    size = eng.csize(sv)
    const = fn.get('const', False)

    def setv(v):
        s = st.copy()
        eng.write(s, base, v, line)
        return s
    if m in ('size', 'length'):
        return [(st, size)]
    if m == 'empty':
        return [(st, eng.cmp('==', size, ZERO))]
    if m == 'max_size':
        return [(st, I((1 << 62)))]
    if m in ('capacity',):
        return [(st, ('app', 'capacity', sv))]
    if m in ('reserve', 'shrink_to_fit'):
        return [(st, ('app', 'void'))]
    if m in ('operator[]',):
        return [(st, s_index(eng, st, fr, n, base, sv, vs[0], const, view, line))]
    if m == 'at':
        out = []
        for s, ok in eng.branch(st, eng.cmp('<', vs[0], size)):
            if ok:
                out.append((s, ('ptr', ('chr', sv, vs[0]) if const or view else ('el', base, vs[0]))))
            else:
                out.append((M.throw(eng, s, 'std::out_of_range', line, fr), ZERO))
        return out
    if m == 'front':
        return [(st, s_index(eng, st, fr, n, base, sv, ZERO, const, view, line))]
    if m == 'back':
        return [(st, s_index(eng, st, fr, n, base, sv, sub(size, I(1)), const, view, line))]
    if m in ('data', 'c_str'):
        if const or view:
            return [(st, ('ptr', ('chr', sv, ZERO)))]
        return [(st, ('ptr', ('el', base, ZERO)))]
    if m in ('begin', 'cbegin'):
        return [(st, ('ptr', ('chr', sv, ZERO) if const or view else ('el', base, ZERO)))]
    if m in ('end', 'cend'):
        return [(st, ('ptr', ('chr', sv, size) if const or view else ('el', base, size)))]
    if m == 'substr':
        pos = vs[0] if vs and eng.intlike(vs[0]) else ZERO
        out = []
        for s, ok in eng.branch(st, eng.cmp('<=', pos, size)):
            if not ok:
                out.append((M.throw(eng, s, 'std::out_of_range', line, fr), ZERO))
                continue
            rest = sub(size, pos)
            if len(vs) > 1 and eng.intlike(vs[1]) and not (vs[1][0] == 'i' and vs[1][1] >= (1 << 62)):
                for s2, le in eng.branch(s, eng.cmp('<=', vs[1], rest)):
                    out.append((s2, M.substr(eng, s2, sv, pos, vs[1] if le else rest)))
            else:
                out.append((s, M.substr(eng, s, sv, pos, rest)))
        return out
    if m == 'remove_prefix':
        M.obligation(eng, st, fr, line, vs[0], add(size, I(1)))
        return [(setv(M.substr(eng, st, sv, vs[0], sub(size, vs[0]))), ('app', 'void'))]
    if m == 'remove_suffix':
        M.obligation(eng, st, fr, line, vs[0], add(size, I(1)))
        return [(setv(M.substr(eng, st, sv, ZERO, sub(size, vs[0]))), ('app', 'void'))]
    if m == 'push_back':
        return [(setv(concat(sv, mk_str((('chr', vs[0]),)))), ('app', 'void'))]
    if m == 'pop_back':
        M.obligation(eng, st, fr, line, sub(size, I(1)), size)
        return [(setv(M.substr(eng, st, sv, ZERO, sub(size, I(1)))), ('app', 'void'))]
    if m in ('append', 'operator+=', 'assign', 'operator='):
        pre = sv if m in ('append', 'operator+=') else ('str', ())
        k = [eng.strip(p) for p in fn.get('pt', [])]
        if len(vs) >= 2 and k[0] == 'unsigned long' and k[1] == 'char':
            add_ = ('app', 'filled', vs[0], vs[1])
            if vs[0][0] == 'i' and vs[0][1] <= 4096:
                add_ = mk_str((('chr', vs[1]),) * vs[0][1])
        elif len(vs) >= 2:
            add_ = M.to_string_value(eng, st, fn, vs, n.get('a', []), n)[0][1]
        elif k[0] == 'char':
            add_ = mk_str((('chr', vs[0]),))
        else:
            add_ = M.arg_str(eng, st, fn, 0, vs[0], n)
            if fn.get('pt', [''])[0].endswith('&&') and vs[0][0] == 'ptr':
                s = setv(concat(pre, add_))
                if vs[0][1] != base:
                    eng.move_out(s, vs[0][1], add_, fn['clst'])
                return [(s, ('ptr', base))]
        return [(setv(concat(pre, add_)), ('ptr', base))]
    if m == 'clear':
        return [(setv(('str', ())), ('app', 'void'))]
    if m == 'resize':
        ch = vs[1] if len(vs) > 1 else ZERO
        out = []
        for s, gr in eng.branch(st, eng.cmp('<=', size, vs[0])):
            s = s.copy()
            if gr:
                ext = sub(vs[0], size)
                if ext[0] == 'i' and ext[1] <= 4096:
                    x = concat(sv, mk_str((('chr', ch),) * ext[1]))
                else:
                    x = concat(sv, ('app', 'filled', ext, ch))
                eng.write(s, base, x, line)
            else:
                eng.write(s, base, M.substr(eng, s, sv, ZERO, vs[0]), line)
            out.append((s, ('app', 'void')))
        return out
    if m == 'insert' and len(vs) == 2 and eng.intlike(vs[0]):
        x = M.arg_str(eng, st, fn, 1, vs[1], n)
        v = concat(concat(M.substr(eng, st, sv, ZERO, vs[0]), x), M.substr(eng, st, sv, vs[0], sub(size, vs[0])))
        return [(setv(v), ('ptr', base))]
    if m == 'erase':
        if vs and eng.intlike(vs[0]):
            pos = vs[0]
            cnt = vs[1] if len(vs) > 1 else None
            if cnt is not None and not (cnt[0] == 'i' and cnt[1] >= 1 << 62):
                v = concat(M.substr(eng, st, sv, ZERO, pos), M.substr(eng, st, sv, add(pos, cnt), sub(sub(size, pos), cnt)))
            else:
                v = M.substr(eng, st, sv, ZERO, pos)
            return [(setv(v), ('ptr', base))]
        if len(vs) == 2 and vs[0][0] == vs[1][0] == 'ptr' and vs[0][1][0] in ('el', 'chr') and vs[1][1][0] == vs[0][1][0]:
            a, b = vs[0][1][2], vs[1][1][2]
            v = concat(M.substr(eng, st, sv, ZERO, a), M.substr(eng, st, sv, b, sub(size, b)))
            return [(setv(v), ('ptr', ('el', base, a)))]
    if m in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        x = M.arg_str(eng, st, fn, 0, vs[0], n)
        pos = vs[1] if len(vs) > 1 else (ZERO if not m.startswith('r') and 'last' not in m else I(-1))
        r = ('app', 'find_pos', ('n', m), sv, x, pos)
        cs, cx = const_str(sv), const_str(x)
        if cs is not None and cx is not None and pos == ZERO and m == 'find':
            p = cs.find(cx)
            return [(st, I(p if p >= 0 else (1 << 64) - 1))]
        units = char_units(sv)
        if eng.fork and units is not None and len(units) <= 40 and cx is not None and (pos == ZERO or pos in (I(-1), I((1 << 64) - 1)) and ('last' in m or m == 'rfind')) and (len(cx) == 1 or '_of' in m):
            return find_units(eng, st, units, cx, m)
        # npos or a valid position
        c = ('app', 'exists', r)
        out = []
        for s, ok in eng.branch(st, c):
            if ok:
                s = s.copy()
                eng.ranges[r] = (0, 1 << 62)
                s.facts.add_ge0(sub(sub(size, r), slen(x) if m in ('find', 'rfind') else I(1)), eng.ranges)
                if pos[0] != 'i' or pos[1] >= 0:
                    if 'last' not in m and m != 'rfind':
                        s.facts.add_ge0(sub(r, pos), eng.ranges)
                out.append((s, r))
            else:
                out.append((s, I((1 << 64) - 1)))
        return out
    if m == 'compare':
        if len(vs) == 1:
            x = M.arg_str(eng, st, fn, 0, vs[0], n)
        else:
            x = M.arg_str(eng, st, fn, 2, vs[2], n)
            if len(vs) > 3:
                x = M.substr(eng, st, x, vs[3], vs[4]) if len(vs) > 4 else x
            out = []
            for s, le in eng.branch(st, eng.cmp('<=', vs[1], sub(size, vs[0]))):
                out += order(eng, s, M.substr(eng, s, sv, vs[0], vs[1] if le else sub(size, vs[0])), x)
            return out
        return order(eng, st, sv, x)
    if m in ('operator basic_string_view',) or m.startswith('operator basic_string_view'):
        return [(st, sv)]
    if m == 'swap':
        o = eng.as_loc(vs[0])
        ov = eng.read(st, o, fn['clst'])
        s = st.copy()
        eng.write(s, base, ov, line)
        eng.write(s, o, sv, line)
        return [(s, ('app', 'void'))]
    if m in ('starts_with', 'ends_with'):
        return [(st, ('app', 'startswith', ('n', m), sv, M.arg_str(eng, st, fn, 0, vs[0], n)))]
    return None


def char_units(v):
    """the characters of a string of known length as values, or None."""
    out = []
    for p in sparts(v):
        if p[0] == 'lit':
            out += [I(b - 256 if b >= 128 else b) for b in p[1]]
        elif p[0] == 'chr':
            out.append(p[1])
        else:
            return None
    return out


def find_units(eng, st, units, cx, m):
    rev = m == 'rfind' or 'last' in m
    want = 'not' not in m
    states, out = [st], []
    for i in (range(len(units) - 1, -1, -1) if rev else range(len(units))):
        nxt = []
        for s in states:
            rest = [s]
            for b in sorted(set(cx)):
                keep = []
                for r in rest:
                    for s2, hit in eng.branch(r, eng.cmp('==', units[i], I(b - 256 if b >= 128 else b))):
                        if not hit:
                            keep.append(s2)
                        elif want:
                            out.append((s2, I(i)))
                        else:
                            nxt.append(s2)
                rest = keep
            if want:
                nxt += rest
            else:
                out += [(r, I(i)) for r in rest]
        states = nxt
    return out + [(s, I((1 << 64) - 1)) for s in states]


def strcmp(eng, st, a, b):
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return I((ca > cb) - (ca < cb))
    if a == b:
        return ZERO
    v = ('app', 'strcmp', a, b)
    eng.ranges[v] = (-(1 << 31), (1 << 31) - 1)
    return v


def order(eng, st, a, b):
    """[(state, sign of the comparison)]; with contents tracked byte by byte: first by the common length, then by the lengths."""
    if not eng.byte_blocks or const_str(a) is not None and const_str(b) is not None:
        return [(st, strcmp(eng, st, a, b))]
    out = []
    la, lb = slen(a), slen(b)
    for s, lt in eng.branch(st, eng.cmp('<', la, lb)):
        for s, gt in ([(s, False)] if lt else eng.branch(s, eng.cmp('<', lb, la))):
            n = lb if gt else la
            x, y = M.substr(eng, s, a, ZERO, n), M.substr(eng, s, b, ZERO, n)
            for s, same in eng.branch(s, str_eq(eng, s, x, y)):
                if same:
                    out.append((s, I(-1 if lt else 1 if gt else 0)))
                    continue
                less = known_less(eng, s, x, y)
                if less is not None:
                    out.append((s, I(-1 if less else 1)))
                    continue
                u, v = sorted((x, y), key=repr)
                for s2, less in eng.branch(s, ('app', 'strless', u, v)):
                    out.append((s2, I(-1 if less == (u == x) else 1)))
    return out


def known_less(eng, st, x, y):
    """order of two different texts of the same length, as far as it follows from what is known about them."""
    x, y = (same_text(eng, st, v) for v in (x, y))
    for f, val in st.facts.bools.items():
        if f[0] == 'app' and f[1] == 'strless':
            p, q = (same_text(eng, st, v) for v in f[2:4])
            if (p, q) == (x, y):
                return val
            if (q, p) == (x, y):
                return not val
    if st.facts.proves_ge0(sub(slen(x), I(1)), eng.ranges):
        a, b = (eng.char_at(st, v, ZERO, 'unsigned char') for v in (x, y))
        op = '<='
        if eng.truth(st, eng.cmp('==', *(eng.char_at(st, v, ZERO, 'char') for v in (x, y)))) is not False:
            op = '<'
        if eng.truth(st, eng.cmp(op, a, b)) is True:
            return True
        if eng.truth(st, eng.cmp(op, b, a)) is True:
            return False
    return None


def same_text(eng, st, v):
    """one text for all that are known to be equal."""
    if v[0] == 'app' and v[1] == 'substr':
        v = M.substr(eng, st, same_text(eng, st, v[2]), v[3], v[4])
    if not eng.str_eqs:
        return v
    for _ in range(3):
        old = v
        for f, val in st.facts.bools.items():
            if val and f in eng.str_eqs:
                x, y = sorted((M.substr(eng, st, *w[2:5]) if w[0] == 'app' and w[1] == 'substr' else w for w in f[2:4]), key=lambda w: (len(repr(w)), repr(w)))
                if x != y:
                    v = replaced(eng, st, v, y, x)
        if v == old:
            break
    return v


def replaced(eng, st, v, x, y):
    if v == x:
        return y
    if v[0] == 'app' and v[1] == 'substr':
        return M.substr(eng, st, *(replaced(eng, st, w, x, y) for w in v[2:5]))
    if v[0] == 'app' and v[1] == 'size':
        return slen(replaced(eng, st, v[2], x, y))
    if v[0] == 'str':
        return mk_str(tuple(('s', replaced(eng, st, p[1], x, y)) if p[0] == 's' else p for p in v[1]))
    return v


def nonempty(eng, st, v):
    """without the parts known to be empty."""
    def empty(x):
        n = slen(x)
        return n == ZERO or n[0] != 'i' and st.facts.proves_ge0(sub(ZERO, n), eng.ranges)
    if v[0] == 'str':
        return mk_str(tuple(p for p in v[1] if p[0] != 's' or not empty(p[1])))
    return mk_str(()) if v[0] == 'app' and empty(v) else v


def str_eq(eng, st, a, b):
    if a == b:
        return TRUE
    if eng.byte_blocks:
        a, b = (nonempty(eng, st, x) for x in (a, b))
        if a == b:
            return TRUE
        x, y = (same_text(eng, st, v) for v in (a, b))
        if x == y:
            return TRUE
        for f, val in st.facts.bools.items():
            if not val and f in eng.str_eqs and {x, y} == {same_text(eng, st, v) for v in f[2:4]}:
                return FALSE
        if all(st.facts.proves_ge0(sub(slen(v), I(1)), eng.ranges) for v in (x, y)) and \
                any(eng.truth(st, eng.cmp('==', *(eng.char_at(st, v, ZERO, t) for v in (x, y)))) is False for t in ('char', 'unsigned char')):
            return FALSE
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return I(ca == cb)
    if ca == b'':
        return eng.cmp('==', slen(b), ZERO)
    if cb == b'':
        return eng.cmp('==', slen(a), ZERO)
    la, lb = slen(a), slen(b)
    d = sub(la, lb)
    if d[0] == 'i' and d[1] != 0:
        return FALSE
    if eng.byte_blocks and d[0] != 'i' and any(st.facts.proves_ge0(x, eng.ranges) for x in (sub(d, I(1)), sub(I(-1), d))):
        return FALSE
    if a[0] == b[0] == 'app' and a[1] == b[1] == 'dec':
        return eng.cmp('==', a[2], b[2])
    if a[0] == 'str' and b[0] == 'str':
        pa, pb = affixes(list(a[1]), list(b[1]))
        if not pa and not pb:
            return TRUE
        if pa and pb and any(x[i][0] == y[j][0] == 'lit' for x, y in ((pa, pb),) for i, j in ((0, 0), (-1, -1))):
            return FALSE
        na, nb = mk_str(tuple(pa)), mk_str(tuple(pb))
        if (na, nb) != (a, b):
            return str_eq(eng, st, na, nb)
    x, y = sorted((a, b), key=repr)
    if eng.byte_blocks:
        eng.str_eqs.add(('app', 'eq', x, y))
    return ('app', 'eq', x, y)


def affixes(pa, pb):
    """without the parts both begin or end with."""
    for end in (0, -1):
        while pa and pb:
            x, y = pa[end], pb[end]
            if x == y:
                pa.pop(end), pb.pop(end)
                continue
            if x[0] == y[0] == 'lit':
                k = 0
                n = min(len(x[1]), len(y[1]))
                while k < n and (x[1][k] == y[1][k] if end == 0 else x[1][-1 - k] == y[1][-1 - k]):
                    k += 1
                if k:
                    for p, v in ((pa, x), (pb, y)):
                        r = v[1][k:] if end == 0 else v[1][:len(v[1]) - k]
                        if r:
                            p[end] = ('lit', r)
                        else:
                            p.pop(end)
                    if k == n:
                        continue
            break
    return pa, pb


# ------------------------------------------------------------------------------------------------ sequences
def elem_t(t):
    a = M.split_targs(t)
    h = M.head(t)
    if h in ('std::queue', 'std::stack') or a:
        return a[0] if a else ''
    return ''


def m_seq(eng, st, fr, n, fn, base, vs, h, m):
    cv = eng.read(st, base, fn['clst'])
    line = n.get('l')
    size = eng.csize(cv)
    const = fn.get('const', False)
    et = elem_t(fn['clst'])

    def setv(s, v):
        s = s.copy()
        eng.write(s, base, v, line)
        return s
    if m in ('size', 'unsafe_size'):
        return [(st, size)]
    if m == 'empty':
        return [(st, eng.cmp('==', size, ZERO))]
    if m == 'reserve' and M.ends(eng, et):
        st = st.copy()
        st.ev('reserve', base, vs[0])
    if m in ('reserve', 'shrink_to_fit'):
        return [(st, ('app', 'void'))]
    if m == 'capacity':
        return [(st, eng.opaque_value(('app', 'capacity', cv), 'unsigned long'))]
    if m == 'operator[]':
        M.obligation(eng, st, fr, line, vs[0], size)
        return [(st, ('ptr', ('el', base, vs[0])))]
    if m == 'at':
        out = []
        for s, ok in eng.branch(st, eng.cmp('<', vs[0], size)):
            if ok and not s.facts.proves_ge0(vs[0], eng.ranges) and eng.tinfo(fn['pt'][0]).get('s'):
                pass
            if ok:
                out.append((s, ('ptr', ('el', base, vs[0]))))
            else:
                out.append((M.throw(eng, s, 'std::out_of_range', line, fr), ZERO))
        return out
    if m in ('front', 'top', 'back'):
        idx = ZERO if m == 'front' else sub(size, I(1))
        M.obligation(eng, st, fr, line, idx, size)
        return [(st, ('ptr', ('el', base, idx)))]
    if m in ('data',):
        return [(st, ('ptr', ('el', base, ZERO)))]
    if m in ('begin', 'cbegin'):
        return [(st, ('ptr', ('el', base, ZERO)))]
    if m in ('end', 'cend'):
        return [(st, ('ptr', ('el', base, size)))]
    if m in ('push_back', 'emplace_back', 'push', 'emplace'):
        if m == 'emplace' and h not in ('std::queue', 'std::stack'):
            return None
        at = M.arg_types(fn, n.get('a', []), vs)
        out = []
        built = M.build(eng, st, fr, et, vs, at, n)
        if h == 'std::vector' and cv[0] == 'seq' and cv[1] and M.ends(eng, et):
            built = [(s2, v) for s, v in built for s2 in (M.reallocated(eng, s, fr, base, eng.read(s, base, fn['clst']), et, line) if s.ctrl is None else [s])]
        for s, v in built:
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            c2 = eng.read(s, base, fn['clst'])
            nv = ('seq', c2[1] + (v,)) if c2[0] == 'seq' and len(c2[1]) < 512 else ('app', 'push', c2, v)
            s = setv(s, nv)
            out.append((s, ('ptr', ('el', base, eng.csize(c2)))))
        return out
    if m == 'push_front' or m == 'emplace_front':
        at = M.arg_types(fn, n.get('a', []), vs)
        return [(setv(s, ('seq', (v,) + cv[1]) if cv[0] == 'seq' else ('app', 'pushf', cv, v)), ('ptr', ('el', base, ZERO)))
                for s, v in M.build(eng, st, fr, et, vs, at, n)]
    if m == 'pop_back' or (m == 'pop' and h == 'std::stack'):
        M.obligation(eng, st, fr, line, sub(size, I(1)), size)
        if cv[0] == 'seq' and cv[1]:
            nv = ('seq', cv[1][:-1])
        elif cv[0] == 'app' and cv[1] == 'push':
            nv = cv[2]
        else:
            nv = ('app', 'pop', cv)
        return [(setv(st, nv), ('app', 'void'))]
    if m == 'pop_front' or (m == 'pop' and h == 'std::queue'):
        M.obligation(eng, st, fr, line, ZERO, size)
        nv = ('seq', cv[1][1:]) if cv[0] == 'seq' and cv[1] else ('app', 'popf', cv)
        return [(setv(st, nv), ('app', 'void'))]
    if m == 'clear':
        return [(setv(st, ('seq', ())), ('app', 'void'))]
    if m == 'resize':
        x = M.val(eng, st, fn, 1, vs[1], n) if len(vs) > 1 else eng.zero_of(st, et)
        if cv == ('seq', ()):
            nv = ('seq', (x,) * vs[0][1]) if vs[0][0] == 'i' and vs[0][1] <= 256 else ('app', 'filled', vs[0], x)
        elif cv[0] == 'seq' and vs[0][0] == 'i' and 0 <= vs[0][1] <= 256:
            nv = ('seq', cv[1][:vs[0][1]] + (x,) * (vs[0][1] - len(cv[1])))
        else:
            nv = ('app', 'sized', cv, vs[0], x)
        return [(setv(st, nv), ('app', 'void'))]
    if m == 'assign' and len(vs) == 2 and eng.intlike(vs[0]):
        x = M.val(eng, st, fn, 1, vs[1], n)
        nv = ('seq', (x,) * vs[0][1]) if vs[0][0] == 'i' and vs[0][1] <= 256 else ('app', 'filled', vs[0], x)
        return [(setv(st, nv), ('app', 'void'))]
    if m == 'fill':
        x = M.val(eng, st, fn, 0, vs[0], n)
        nv = ('seq', (x,) * len(cv[1])) if cv[0] == 'seq' else ('app', 'filled', size, x)
        return [(setv(st, nv), ('app', 'void'))]
    if m == 'operator=':
        v = M.val(eng, st, fn, 0, vs[0], n)
        s = setv(st, v)
        if fn.get('pt', [''])[0].endswith('&&') and vs[0][0] == 'ptr':
            eng.move_out(s, vs[0][1], v, fn['clst'])
        return [(s, ('ptr', base))]
    if m == 'swap':
        o = eng.as_loc(vs[0])
        ov = eng.read(st, o, fn['clst'])
        s = setv(st, ov)
        eng.write(s, o, cv, line)
        return [(s, ('app', 'void'))]
    if m == 'insert' and len(vs) == 3 and all(v[0] == 'ptr' for v in vs):
        a, b = vs[1][1], vs[2][1]
        if vs[0][1] == ('el', base, size) and a[0] == b[0] == 'el' and a[1] == b[1]:
            o = eng.read(st, a[1])
            if a[2] == ZERO and b[2] == eng.csize(o):
                if o[0] == 'seq' and cv[0] == 'seq':
                    return [(setv(st, ('seq', cv[1] + o[1])), vs[0])]
                return [(setv(st, ('app', 'cat', cv, o)), vs[0])]
    if m == 'insert' and len(vs) == 3 and vs[0][0] == 'ptr' and vs[0][1] == ('el', base, size) and vs[1][0] == 'i' and 0 <= vs[1][1] <= 256 and cv[0] == 'seq':
        v = M.val(eng, st, fn, 2, vs[2], n)
        return [(setv(st, ('seq', cv[1] + (v,) * vs[1][1])), vs[0])]
    if m in ('insert', 'emplace') and len(vs) == 2 and vs[0][0] == 'ptr' and vs[0][1][:2] == ('el', base) and vs[0][1][2] in (ZERO, size):
        v = M.val(eng, st, fn, 1, vs[1], n)
        if vs[0][1][2] == size and size != ZERO:
            return [(setv(st, ('seq', cv[1] + (v,)) if cv[0] == 'seq' else ('app', 'push', cv, v)), vs[0])]
        return [(setv(st, ('seq', (v,) + cv[1]) if cv[0] == 'seq' else ('app', 'cat', ('seq', (v,)), cv)), vs[0])]
    if m == 'erase' and vs and vs[0][0] == 'ptr' and vs[0][1][0] == 'el':
        i = vs[0][1][2]
        if len(vs) == 1:
            if cv[0] == 'seq' and i[0] == 'i':
                nv = ('seq', cv[1][:i[1]] + cv[1][i[1] + 1:])
            else:
                nv = ('app', 'popf', cv) if i == ZERO else ('app', 'erase', cv, i)
            return [(setv(st, nv), vs[0])]
        if len(vs) == 2 and vs[1][0] == 'ptr' and vs[1][1][:2] == vs[0][1][:2] == ('el', base) and cv[0] == 'seq' and i[0] == 'i' and vs[1][1][2][0] == 'i':
            return [(setv(st, ('seq', cv[1][:i[1]] + cv[1][vs[1][1][2][1]:])), vs[0])]
    return None


# ------------------------------------------------------------------------------------------------ maps / sets
def m_map(eng, st, fr, n, fn, base, vs, h, m):
    cv = eng.read(st, base, fn['clst'])
    line = n.get('l')
    ismap = 'map' in h
    a = M.split_targs(fn['clst'])

    def setv(s, v):
        s = s.copy()
        eng.write(s, base, v, line)
        return s

    def has(s, k):
        return [x for s1 in M.keycases(eng, s, cv, k) for x in eng.branch(s1, M.mhas(eng, cv, k, s1))]

    def key(i=0):
        t = eng.strip(a[0]) if a else ''
        if M.is_stringy(t):
            return M.arg_str(eng, st, fn, i, vs[i], n)
        return M.val(eng, st, fn, i, vs[i], n)
    if m == 'size':
        return [(st, map_size(eng, st, cv))]
    if m == 'empty':
        return [(st, eng.cmp('==', map_size(eng, st, cv), ZERO))]
    if m in ('reserve', 'rehash'):
        return [(st, ('app', 'void'))]
    if m in ('end', 'cend'):
        return [(st, ('ptr', ('mend', base)))]
    if m in ('begin', 'cbegin'):
        return map_at(eng, st, base, 0, fn['clst']) or [(st, ('ptr', ('el', base, ZERO)))]
    if m in ('count', 'contains') and len(vs) == 1:
        k = key()
        if 'multi' in h:
            x = mcount(eng, cv, k)
            return [(st, x)]
        return [(s, M.mhas(eng, cv, k, s)) for s in M.keycases(eng, st, cv, k)]
    if m == 'find' and len(vs) == 1:
        k = key()
        out = []
        for s, ok in has(st, k):
            out.append((s, ('ptr', ('el', base, ('app', 'mkey', k)) if ok else ('mend', base))))
        return out
    if m == 'at':
        k = key()
        out = []
        for s, ok in has(st, k):
            if ok:
                out.append((s, ('ptr', ('fl', ('el', base, ('app', 'mkey', k)), 'second'))))
            else:
                out.append((M.throw(eng, s, 'std::out_of_range', line, fr), ZERO))
        return out
    if m == 'operator[]':
        k = key()
        out = []
        for s, ok in has(st, k):
            if not ok:
                s = setv(s, M.mput(cv, k, eng.zero_of(s, a[1])))
            out.append((s, ('ptr', ('fl', ('el', base, ('app', 'mkey', k)), 'second'))))
        return out
    if m in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        at = M.arg_types(fn, n.get('a', []), vs)
        rs = []
        if not ismap:
            if m == 'insert' and len(vs) == 2:
                x = eng.read(st, vs[0][1][1]) if vs[0][0] == 'ptr' and vs[0][1][0] == 'el' else ('app', 'range2', *vs)
                return [(setv(st, ('app', 'munion', cv, x)), ('app', 'void'))]
            rs = [(s, k, TRUE) for s, k in M.build(eng, st, fr, a[0], vs, at, n)]
        elif m == 'insert' and len(vs) == 1:
            v = M.val(eng, st, fn, 0, vs[0], n)
            rs = [(st, eng.proj(st, v, 'first', None), eng.proj(st, v, 'second', None))]
        elif len(vs) >= 1:
            for s, k in M.build(eng, st, fr, a[0], vs[:1], at[:1], n):
                if s.ctrl is not None:
                    return [(s, ZERO)]
                for s2, v in M.build(eng, s, fr, a[1], vs[1:], at[1:], n):
                    if s2.ctrl is not None:
                        return [(s2, ZERO)]
                    rs.append((s2, k, v))
        out = []
        for s, k, v in rs:
            if s.ctrl is not None:
                out.append((s, ZERO))
                continue
            if 'multi' in h:
                s = setv(s, ('app', 'madd', cv, k))
                out.append((s, ('ptr', ('el', base, ('app', 'mkey', k)))))
                continue
            for s2, had in has(s, k):
                if not had or m == 'insert_or_assign':
                    s2 = setv(s2, M.mput(cv, k, v))
                r = ('st', 'std::pair', (('first', ('ptr', ('el', base, ('app', 'mkey', k)))), ('second', I(not had))))
                out.append((s2, r))
        return out
    if m == 'erase':
        if len(vs) == 1 and vs[0][0] == 'ptr' and vs[0][1][0] == 'el' and vs[0][1][1] == base:
            i = vs[0][1][2]
            k = i[2] if i[0] == 'app' and i[1] == 'mkey' else i
            if gone(eng, st, vs[0]):
                return [(M.throw(eng, st, GONE, line, fr), ZERO)]
            return [(setv(st, M.merase(eng, st, cv, k)), ('ptr', ('mnext', base, k)))]
        k = key()
        out = []
        for s, had in has(st, k):
            if had:
                s = setv(s, M.merase(eng, s, cv, k))
            out.append((s, I(had)))
        return out
    if m == 'clear':
        return [(setv(st, ('seq', ())), ('app', 'void'))]
    if m == 'operator=':
        v = M.val(eng, st, fn, 0, vs[0], n)
        s = setv(st, v)
        if fn.get('pt', [''])[0].endswith('&&') and vs[0][0] == 'ptr':
            eng.move_out(s, vs[0][1], v, fn['clst'])
        return [(s, ('ptr', base))]
    if m == 'swap':
        o = eng.as_loc(vs[0])
        ov = eng.read(st, o, fn['clst'])
        s = setv(st, ov)
        eng.write(s, o, cv, line)
        return [(s, ('app', 'void'))]
    return None


def map_end(eng, st, a, b):
    """the end of a map next to a position counted from its begin is the position of that count."""
    if a[0] == b[0] == 'ptr' and a[1][0] == 'mend' and b[1][0] == 'el' and b[1][1] == a[1][1] and b[1][2][:2] != ('app', 'mkey'):
        return ('ptr', ('el', a[1][1], map_size(eng, st, eng.read(st, a[1][1]))))
    return a


def map_at(eng, st, base, i, t, after=None):
    """[(state, position)]: the i-th entry, or the one after a key, of a map (container or iterator type t) whose entries are all
    known.  Ordered containers are visited in the order of their keys, others in an unspecified one."""
    m = eng.read(st, base)
    es = M.entries(eng, st, m)
    if es is None:
        return None
    out = []
    for s, l in M.in_order(eng, st, 'std::map' if '_Rb_tree' in t else t, es):
        ks = [k for k, _ in l]
        j = i if after is None else ks.index(after) + 1
        out.append((s, ('ptr', ('el', base, ('app', 'mkey', ks[j])) if j < len(ks) else ('mend', base))))
    return out


def mcount(eng, m, k):
    if m == ('seq', ()):
        return ZERO
    v = ('app', 'count', m, k)
    eng.ranges[v] = (0, 1 << 62)
    return v


def map_size(eng, st, m):
    if m[0] == 'seq':
        return I(len(m[1]))
    v = ('app', 'size', m)
    if m[0] == 'app' and m[1] == 'mput':
        h = M.mhas(eng, m[2], m[3], st)
        if h == FALSE or eng.truth(st, h) is False:
            return add(map_size(eng, st, m[2]), I(1))
        if h == TRUE or eng.truth(st, h) is True:
            return map_size(eng, st, m[2])
    return v


# ------------------------------------------------------------------------------------------------ optional, smart ptr, ...
def m_optional(eng, st, fr, n, fn, base, vs, h, m):
    t = fn['clst']
    if m in ('operator bool', 'has_value'):
        return [(st, M.engaged(eng, eng.read(st, base, t)))]
    if m == 'operator!':
        return [(st, eng.neg(M.engaged(eng, eng.read(st, base, t))))]
    if m in ('operator*', 'operator->', 'get', 'get_ptr'):
        v = eng.read(st, base, t)
        if v == NULLOPT:
            st = st.copy()
            st.ev('nullderef', n.get('l'))
        elif v[0] != 'opt' and eng.truth(st, M.engaged(eng, v)) is not True:
            st = st.copy()
            st.ev('optderef', v, n.get('l'))
        return [(st, ('ptr', ('fl', base, '*')))]
    if m == 'value':
        out = []
        for s, ok in eng.branch(st, M.engaged(eng, eng.read(st, base, t))):
            if ok:
                out.append((s, ('ptr', ('fl', base, '*'))))
            else:
                out.append((M.throw(eng, s, 'std::bad_optional_access', n.get('l'), fr), ZERO))
        return out
    if m == 'value_or':
        out = []
        for s, ok in eng.branch(st, M.engaged(eng, eng.read(st, base, t))):
            if ok:
                out.append((s, eng.read(s, ('fl', base, '*'), M.split_targs(t)[0])))
            else:
                for s2, x in M.build(eng, s, fr, M.split_targs(t)[0], vs, M.arg_types(fn, n.get('a', []), vs), n):
                    out.append((s2, x))
        return out
    if m == 'reset':
        s = st.copy()
        eng.write(s, base, NULLOPT, n.get('l'))
        return [(s, ('app', 'void'))]
    if m in ('operator=', 'emplace'):
        out = []
        at = M.arg_types(fn, n.get('a', []), vs)
        if m == 'operator=':
            rs = M.construct(eng, st, fr, n, {'q': '', 'key': '', 'pt': fn.get('pt', [])}, t, vs, n.get('a', []))
        else:
            rs = [(s, ('opt', v)) for s, v in M.build(eng, st, fr, M.split_targs(t)[0], vs, at, n)]
        for s, v in rs:
            if s.ctrl is None:
                s = s.copy()
                eng.write(s, base, v, n.get('l'))
            out.append((s, ('ptr', base if m == 'operator=' else ('fl', base, '*'))))
        return out
    return None


def m_variant(eng, st, fr, n, fn, base, vs, h, m):
    t = fn['clst']
    alts = M.split_targs(t)
    v = eng.read(st, base, t)
    if m == 'index':
        if v[0] == 'alt':
            return [(st, I(v[1] if isinstance(v[1], int) else alts.index(v[1])))]
        return [(st, M.alt_index(eng, v, len(alts)))]
    if m == 'valueless_by_exception':
        return [(st, FALSE)]
    if m == 'operator=':
        out = []
        for s, x in M.variant_from(eng, st, fr, t, vs, M.arg_types(fn, n.get('a', []), vs), n):
            s = s.copy()
            eng.write(s, base, x, n.get('l'))
            out.append((s, ('ptr', base)))
        return out
    if m == 'emplace':
        ta = (fn.get('ta') or [None])[0]
        if ta is None:
            return None
        if ta not in alts and re.match(r'^\d+', ta or ''):
            ta = alts[int(re.sub('[uUlL]', '', ta))]
        out = []
        for s, x in M.build(eng, st, fr, ta, vs, M.arg_types(fn, n.get('a', []), vs), n):
            s = s.copy()
            eng.write(s, base, ('alt', ta, x), n.get('l'))
            out.append((s, ('ptr', ('fl', base, '<' + ta + '>'))))
        return out
    return None


def m_smart(eng, st, fr, n, fn, base, vs, h, m):
    t = fn['clst']
    line = n.get('l')
    v = eng.read(st, base, t)
    if m in ('get', 'operator->', 'operator*'):
        if m != 'get':
            if v == NULL:
                st = st.copy()
                st.ev('nullderef', line)
        if m == 'operator*':
            return [(st, ('ptr', eng.as_loc(v)))]
        return [(st, v)]
    if m == 'operator[]':
        return [(st, eng.deref_idx(v, vs[0]))]
    if m == 'operator bool':
        return [(st, eng.to_bool(v))]
    if m == 'release':
        s = st.copy()
        eng.write(s, base, NULL, line)
        return [(s, v)]
    if m in ('reset', 'operator='):
        out = []
        nv = NULL
        src = None
        if vs:
            nv = vs[0]
            nd = n.get('a', [None])[0]
            if nd is not None and (nd.get('lv') or nd.get('k') == 'mat') and nv[0] == 'ptr' and m == 'operator=' and fn['pt'][0].endswith('&'):
                src = nv[1]
                nv = eng.read(st, src, nd.get('t'))
                if nv == ('app', 'nullptr') or 'nullptr_t' in nd.get('t', ''):
                    nv = NULL
        s = st.copy()
        if src is not None and (h == 'std::unique_ptr' or fn['pt'][0].endswith('&&')) and src != base:
            eng.write(s, src, NULL, line, log=False)
        # the old pointee is destroyed
        rs = [s]
        by = M.deleter(eng, t) if h == 'std::unique_ptr' else None
        if by is not None:
            rs = [s] if v == nv else M.delete_by(eng, s, fr, by, v, base, line)
        elif h == 'std::unique_ptr' and v[0] == 'ptr' and v[1][0] == 'h' and v != nv:
            rs = eng.destroy(s, fr, v[1], v[1][2], line)
        elif h == 'std::unique_ptr' and v != NULL:
            s.ev('release', v, line)
        for s in rs:
            eng.write(s, base, nv, line)
            out.append((s, ('ptr', base)))
        return out
    if m == 'swap':
        o = eng.as_loc(vs[0])
        ov = eng.read(st, o, t)
        s = st.copy()
        eng.write(s, base, ov, line)
        eng.write(s, o, v, line)
        return [(s, ('app', 'void'))]
    if m in ('use_count', 'unique'):
        return [(st, eng.opaque_value(('app', m, v), n.get('t')))]
    if m == 'get_deleter':
        return [(st, ('ptr', ('fl', base, '$deleter')))]
    return None


def m_lock(eng, st, fr, n, fn, base, vs, h, m):
    v = eng.read(st, base)
    if v[0] != 'app' or v[1] != 'lockobj':
        return None
    s = st.copy()
    if m in ('lock', 'unlock'):
        for p in v[3:]:
            if m == 'lock':
                M.acquire(eng, s, fr, p[1], n.get('l'))
            else:
                M.release(eng, s, p[1], n.get('l'))
        eng.write(s, base, ('app', 'lockobj', I(m == 'lock')) + v[3:], 0, log=False)
        return [(s, ('app', 'void'))]
    if m in ('owns_lock', 'operator bool'):
        return [(s, v[2])]
    if m == 'try_lock':
        c = ('app', 'owns', eng.fresh('try'))
        out = []
        for s2, ok in eng.branch(s, c):
            s2 = s2.copy()
            if ok:
                for p in v[3:]:
                    M.acquire(eng, s2, fr, p[1], n.get('l'))
                eng.write(s2, base, ('app', 'lockobj', TRUE) + v[3:], 0, log=False)
            out.append((s2, I(ok)))
        return out
    return None


def m_mutex(eng, st, fr, n, fn, base, vs, h, m):
    s = st.copy()
    if m in ('lock', 'lock_shared'):
        M.acquire(eng, s, fr, base, n.get('l'))
        return [(s, ('app', 'void'))]
    if m in ('unlock', 'unlock_shared'):
        M.release(eng, s, base, n.get('l'))
        return [(s, ('app', 'void'))]
    if m == 'try_lock':
        out = []
        for s2, ok in eng.branch(s, ('app', 'owns', eng.fresh('try'))):
            s2 = s2.copy()
            if ok:
                M.acquire(eng, s2, fr, base, n.get('l'))
            out.append((s2, I(ok)))
        return out
    return None


def m_cv(eng, st, fr, n, fn, base, vs, h, m):
    line = n.get('l')
    if m in ('notify_one', 'notify_all'):
        s = st.copy()
        s.ev('notify', base, ('n', m), line, s.locks)
        return [(s, ('app', 'void'))]
    if m in ('wait', 'wait_for', 'wait_until'):
        lk = eng.read(st, eng.as_loc(vs[0]))
        s = st.copy()
        locs = [p[1] for p in lk[3:]] if lk[0] == 'app' and lk[1] == 'lockobj' else []
        tag = None
        for l in locs:
            tag = M.havoc_owner(eng, s, fr, l, 'wait')
        pred = None
        npos = 1 if m == 'wait' else 2
        if len(vs) > npos:
            pred = vs[npos]
            if pred[0] == 'ptr':
                pred = eng.read(s, pred[1])
        tmo = vs[1] if m != 'wait' and len(vs) > 1 else None
        if tmo is not None:
            tmo = M.val(eng, st, fn, 1, tmo, n)
        s.ev('wait', base, tuple(locs), line, ('n', m), tag, pred is not None, tmo, s.locks)
        if pred is None:
            if m == 'wait':
                return [(s, ('app', 'void'))]
            x = eng.fresh('cvstatus')
            eng.ranges[x] = (0, 1)
            return [(s, x)]
        out = []
        for s2, c in call_fnobj(eng, s, fr, n, pred, [], []):
            if s2.ctrl is not None:
                out.append((s2, ZERO))
                continue
            if m == 'wait':
                out += [(s3, ('app', 'void')) for s3 in eng.assume(s2, eng.to_bool(c), True)]
            else:
                out.append((s2, eng.to_bool(c)))
        return out
    return None


def call_fnobj(eng, st, fr, n, f, args, types):
    """call a lambda / function / functor value."""
    if f[0] == 'ptr':
        v = eng.read(st, f[1])
        if v[0] == 'lam' or (v[0] == 'app' and v[1] == 'fn'):
            f = v
    if f[0] == 'lam':
        return eng.call_lambda(st, fr, f, args, n, types)
    if f[0] == 'app' and f[1] == 'fn':
        g = eng.db.fns.get(f[2][1])
        if g is not None:
            return eng.invoke(g, st, None, args, n, fr)
        nm = f[2][1].split('@')[-1].rstrip('#I')
        if nm in CT or nm in ('tolower', 'toupper'):
            return f_ctype(eng, st, fr, n, None, [eng.read(st, args[0][1]) if args[0][0] == 'ptr' else args[0]], nm)
    v = eng.read(st, f[1]) if f[0] == 'ptr' else f
    if v[0] == 'st':
        c = [g for g in eng.db.fns.values() if g.get('clst') == v[1] and g.get('op') == '()' and len(g['params']) == len(args) and not g.get('dep')]
        pick = None
        for g in c:
            if [eng.strip(p['t']) for p in g['params']] == [eng.strip(x) for x in types]:
                pick = g
        if pick is None and len(c) == 1:
            pick = c[0]
        if pick is not None:
            loc = f[1] if f[0] == 'ptr' else eng.temp(st, v)
            return eng.invoke(pick, st, loc, args, n, fr)
    st = st.copy()
    av = tuple(eng.read(st, a[1], eng.strip(t)) if a[0] == 'ptr' and t and t.endswith('&') else a for a, t in zip(args, types + [None] * len(args)))
    st.ev('icall', v, av, n.get('l'))
    return [(st, ('app', 'icall', v, *av, ('i', len(st.eff))))]


def m_function(eng, st, fr, n, fn, base, vs, h, m):
    v = eng.read(st, base, fn['clst'])
    if m == 'operator bool':
        return [(st, eng.to_bool(v))]
    if m == 'operator()':
        at = M.arg_types(fn, n.get('a', []), vs)
        return call_fnobj(eng, st, fr, n, v, vs, [(t or '').replace('&&', '&') for t in at])
    if m == 'operator=':
        x = M.val(eng, st, fn, 0, vs[0], n)
        s = st.copy()
        eng.write(s, base, x, n.get('l'))
        return [(s, ('ptr', base))]
    return None


def m_atomic(eng, st, fr, n, fn, base, vs, h, m):
    t = M.split_targs(fn['clst'])
    t = t[0] if t else 'bool'
    line = n.get('l')
    v = eng.read(st, base, t)
    if m in ('load', 'test') or m.startswith('operator ') and not vs:
        st = st.copy()
        st.ev('aload', base, line)
        return [(st, v)]
    s = st.copy()
    if m in ('store', 'operator='):
        eng.write(s, base, vs[0], line)
        return [(s, vs[0])]
    if m == 'clear':
        eng.write(s, base, ZERO, line)
        return [(s, ('app', 'void'))]
    if m in ('exchange', 'test_and_set'):
        eng.write(s, base, vs[0] if vs and m == 'exchange' else TRUE, line)
        return [(s, v)]
    if m in ('fetch_add', 'fetch_sub', 'operator++', 'operator--', 'operator+=', 'operator-='):
        d = vs[0] if vs and m not in ('operator++', 'operator--') else I(1)
        op = '-' if 'sub' in m or '--' in m or '-=' in m else '+'
        out = []
        for s2, x in eng.arith(s, op, v, d, t, line, fr):
            eng.write(s2, base, x, line)
            post = m.startswith('fetch') or (m in ('operator++', 'operator--') and vs)
            out.append((s2, v if post else x))
        return out
    if m in ('compare_exchange_strong', 'compare_exchange_weak'):
        el = eng.as_loc(vs[0])
        ev = eng.read(s, el, t)
        out = []
        pairs = [(v, ev)]
        if v[0] == ev[0] == 'st' and v != ev and [k for k, _ in v[2]] == [k for k, _ in ev[2]]:
            pairs = [(x, y) for (_, x), (_, y) in zip(v[2], ev[2])]
        alike, cases = [s], []
        for x, y in pairs:
            nxt = []
            for s2 in alike:
                for s3, eq in eng.branch(s2, eng.cmp('==', x, y)):
                    (nxt if eq else cases).append(s3 if eq else (s3, False))
            alike = nxt
        for s2, eq in [(s3, True) for s3 in alike] + cases:
            s2 = s2.copy()
            if eq:
                eng.write(s2, base, vs[1], line)
            else:
                eng.write(s2, el, v, line, log=False)
            out.append((s2, I(eq)))
        return out
    return None


GONE = 'use of an entry that was erased'


def gone(eng, st, v):
    """whether an iterator of a map is that of an entry that was erased since."""
    return v[0] == 'ptr' and v[1][0] == 'el' and v[1][2][:2] == ('app', 'mkey') and M.mhas(eng, eng.read(st, v[1][1]), v[1][2][2], st) == FALSE


def m_iter(eng, st, fr, n, fn, base, vs, h, m):
    v = eng.read(st, base)
    line = n.get('l')
    if m in ('operator*', 'operator->') and gone(eng, st, v):
        return [(M.throw(eng, st, GONE, line, fr), ZERO)]
    if m == 'operator*':
        if v[0] == 'ptr' and v[1][0] == 'chr':
            M.obligation(eng, st, fr, line, v[1][2], eng.csize(v[1][1]))
        elif v[0] == 'ptr' and v[1][0] == 'el' and v[1][2][0] != 'app':
            pass
        return [(st, ('ptr', eng.as_loc(v)))]
    if m == 'operator->':
        return [(st, v if v[0] == 'ptr' else ('ptr', ('d', v)))]
    if m in ('operator++', 'operator--'):
        if v[0] == 'ptr' and v[1][0] == 'el' and v[1][2][:2] == ('app', 'mkey') and m == 'operator++':
            es = M.entries(eng, st, eng.read(st, v[1][1]))
            if v[1][2][2] in [k for k, _ in es or ()]:
                out = []
                for s, nv in map_at(eng, st, v[1][1], 0, fn['clst'], v[1][2][2]):
                    s = s.copy()
                    eng.write(s, base, nv, line, log=False)
                    out.append((s, v if vs else ('ptr', base)))
                return out
        s = st.copy()
        if v[0] == 'ptr' and v[1][0] in ('el', 'chr') and not (v[1][2][0] == 'app' and v[1][2][1] == 'mkey'):
            nv = eng.ptr_add(v, I(1), 1 if m == 'operator++' else -1)
        else:
            nv = ('ptr', ('mnext', v))
        eng.write(s, base, nv, line, log=False)
        return [(s, v if vs else ('ptr', base))]
    if m in ('operator+', 'operator-') and vs:
        return [(st, eng.ptr_add(v, M.val(eng, st, fn, 0, vs[0], n), 1 if m == 'operator+' else -1))]
    if m in ('operator+=', 'operator-='):
        s = st.copy()
        eng.write(s, base, eng.ptr_add(v, M.val(eng, st, fn, 0, vs[0], n), 1 if m == 'operator+=' else -1), line, log=False)
        return [(s, ('ptr', base))]
    if m == 'operator[]':
        return [(st, eng.deref_idx(v, vs[0]))]
    if m == 'base':
        return [(st, v)]
    if m == 'operator=':
        s = st.copy()
        eng.write(s, base, M.val(eng, st, fn, 0, vs[0], n), line, log=False)
        return [(s, ('ptr', base))]
    return None


def m_pair(eng, st, fr, n, fn, base, vs, h, m):
    if m == 'operator=':
        s = st.copy()
        eng.write(s, base, M.val(eng, st, fn, 0, vs[0], n), n.get('l'))
        return [(s, ('ptr', base))]
    return None


def m_chrono(eng, st, fr, n, fn, base, vs, h, m):
    v = eng.read(st, base, fn['clst'])
    if m == 'count':
        if v[0] == 'app' and v not in eng.ranges:
            eng.ranges[v] = (-(1 << 63), (1 << 63) - 1)
        return [(st, v)]
    if m == 'time_since_epoch':
        return [(st, v)]
    if m == 'operator=':
        s = st.copy()
        eng.write(s, base, M.val(eng, st, fn, 0, vs[0], n), n.get('l'))
        return [(s, ('ptr', base))]
    return None


def m_json(eng, st, fr, n, fn, base, vs, h, m):
    v = eng.read(st, base)
    if m == 'operator[]':
        k = M.arg_str(eng, st, fn, 0, vs[0], n)
        return [(st, ('ptr', ('fl', ('el', base, ('app', 'mkey', k)), 'second')))]
    if m == 'operator=':
        x = vs[0]
        if x[0] == 'ptr':
            x = eng.read(st, x[1])
        s = st.copy()
        eng.write(s, base, x, n.get('l'))
        return [(s, ('ptr', base))]
    if m == 'dump':
        return [(st, ('app', 'dump', v))]
    if m == 'emplace' and len(vs) == 2:
        k, x = (M.cstr(eng, st, y) if y[0] == 'ptr' and y[1][0] in ('lit', 'chr') else eng.read(st, y[1]) if y[0] == 'ptr' else y for y in vs)
        out = []
        for s, had in eng.branch(st, M.mhas(eng, v, k, st)):
            s = s.copy()
            if not had:
                eng.write(s, base, M.mput(v, k, x), n.get('l'))
            out.append((s, ('app', 'void')))
        return out
    if m in ('contains', 'count') and vs:
        k = M.arg_str(eng, st, fn, 0, vs[0], n)
        return [(st, M.mhas(eng, v, k, st))]
    if m.startswith('get') and not vs and v[0] == 'str' or m.startswith('get') and M.is_stringy(n.get('t', '')):
        return [(st, v)]
    if m in ('empty', 'size'):
        x = map_size(eng, st, v)
        return [(st, x if m == 'size' else eng.cmp('==', x, ZERO))]
    return None


METHODS = {}
for _h in (M.STRING, M.VIEW):
    METHODS[_h] = m_string
for _h in M.SEQS:
    METHODS[_h] = m_seq
for _h in M.MAPS:
    METHODS[_h] = m_map
for _h in M.SMART:
    METHODS[_h] = m_smart
for _h in M.STREAMS:
    METHODS[_h] = m_stream
for _h in M.LOCKS:
    METHODS[_h] = m_lock
for _h in M.MUTEXES:
    METHODS[_h] = m_mutex
for _h in M.CVS:
    METHODS[_h] = m_cv
for _h in M.ITERS:
    METHODS[_h] = m_iter
METHODS.update({'std::optional': m_optional, 'boost::optional': m_optional, 'std::variant': m_variant, 'std::function': m_function,
                'std::atomic': m_atomic, 'std::__atomic_base': m_atomic, 'std::atomic_flag': m_atomic,
                'std::pair': m_pair, 'std::tuple': m_pair, 'std::chrono::duration': m_chrono,
                'std::chrono::time_point': m_chrono, 'nlohmann::basic_json': m_json,
                'std::_Optional_base_impl': m_optional})
METHODS.update({_h: (lambda *a: m_fnobj(*a)) for _h in ('std::equal_to', 'std::not_equal_to', 'std::less', 'std::greater', 'std::less_equal', 'std::greater_equal')})


# ------------------------------------------------------------------------------------------------ algorithms
def algo_loop(eng, st, fr, n, first, last, etype, step):
    """iterate [first,last): step(state, elem_ptr) -> [(state, stop)]; yields states after the loop."""
    a, b = first, last
    if not (a[0] == 'ptr' and b[0] == 'ptr'):
        return None
    la, lb = a[1], b[1]
    if la[0] == 'el' == lb[0] and la[1] == lb[1] and la[2][0] == 'i' == lb[2][0] and 0 <= lb[2][1] - la[2][1] <= 16:
        # some known elements of an array, one by one
        done, todo = [], [st]
        for i in range(la[2][1], lb[2][1]):
            nxt = []
            for s in todo:
                for s2, stop in step(s, ('ptr', ('el', la[1], I(i)))):
                    (done if stop or s2.ctrl is not None else nxt).append(s2)
            todo = nxt
        return done + todo
    if la[0] == 'el' and lb[0] in ('el', 'mend') and la[1] == lb[1] and la[2] == ZERO:
        cl = ('ptr', la[1])
        if lb[0] == 'el' and lb[2] != eng.csize(eng.read(st, la[1])):
            return None
        rt = etype
    elif la[0] == 'chr' and lb[0] == 'chr' and la[1] == lb[1] and la[2] == ZERO and lb[2] == eng.csize(la[1]):
        cl = la[1]
        rt = 'std::basic_string_view<char, std::char_traits<char>>'
    else:
        return None

    def body(s, fr2):
        eloc = s.mem[('v', fr2.id, '$e', '$e')]
        out = []
        for s2, stop in step(s, eloc):
            if s2.ctrl is None and stop:
                s2 = s2.copy()
                s2.ctrl = ('brk',)
            out.append(s2)
        return out
    isstr = cl[0] != 'ptr'
    node = {'k': 'rfor', 'l': n.get('l'), 'r': {'k': '_val', 'val': cl, 't': rt, 'l': n.get('l')},
            'var': {'n': '$e', 'id': '$e', 't': 'const char &' if isstr else (etype + ' &')},
            'b': {'k': '_py', 'f': body, 'l': n.get('l')}}
    return eng.range_loop(node, st.copy(), fr, cl)


def iter_etype(n, i=0):
    t = n['a'][i].get('t', '')
    a = M.split_targs(t)
    if t.endswith('*'):
        return t[:-1].strip().replace('const ', '')
    if a:
        x = a[0]
        if x.endswith('*'):
            x = x[:-1].strip()
        x = x.replace(' *const', '').strip()
        if x.startswith('const '):
            x = x[6:]
        return x
    return ''


def rvi(eng, st, n, vs, i):
    """iterator argument (by value)."""
    v = vs[i]
    nd = n['a'][i] if i < len(n.get('a', [])) else {}
    if nd.get('lv') and v[0] == 'ptr':
        return eng.read(st, v[1], nd.get('t'))
    return v


def f_any(eng, st, fr, n, fn, vs, q):
    kind = q[5:]
    first, last = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1)
    et = iter_etype(n)
    st = st.copy()
    eng.n += 1
    flag = ('t', eng.n)
    st.mem[flag] = {'any_of': FALSE, 'all_of': TRUE, 'none_of': TRUE}.get(kind, last)

    def step(s, e):
        out = []
        if kind == 'find':
            rs = [(s, eng.cmp('==', eng.read(s, e[1], et), M.val(eng, s, fn, 2, vs[2], n)))] if not M.is_stringy(et) else \
                [(s, str_eq(eng, s, eng.read(s, e[1], et), M.arg_str(eng, s, fn, 2, vs[2], n)))]
        else:
            p = vs[2]
            rs = call_fnobj(eng, s, fr, n, p, [e], [et + ' &'])
        for s2, c in rs:
            if s2.ctrl is not None:
                out.append((s2, False))
                continue
            for s3, t in eng.branch(s2, eng.to_bool(c)):
                stop = t if kind in ('any_of', 'none_of', 'find_if', 'find') else not t
                if stop:
                    s3 = s3.copy()
                    s3.mem[flag] = {'any_of': TRUE, 'all_of': FALSE, 'none_of': FALSE}.get(kind, e)
                out.append((s3, stop))
        return out
    rs = algo_loop(eng, st, fr, n, first, last, et, step)
    if rs is None:
        return None
    return [(s, s.mem.get(flag, ZERO) if s.ctrl is None else ZERO) for s in rs]


def f_for_each(eng, st, fr, n, fn, vs, q):
    first, last = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1)
    et = iter_etype(n)

    def step(s, e):
        return [(s2, False) for s2, _ in call_fnobj(eng, s, fr, n, vs[2], [e], [et + ' &'])]
    rs = algo_loop(eng, st, fr, n, first, last, et, step)
    if rs is None:
        return None
    return [(s, vs[2]) for s in rs]


def f_copy(eng, st, fr, n, fn, vs, q):
    first, last, dst = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1), rvi(eng, st, n, vs, 2)
    et = iter_etype(n)
    kind = q[5:]
    place = None
    if dst[0] == 'ptr' and dst[1][0] == 'el' and kind in ('copy', 'transform'):
        st = st.copy()
        eng.n += 1
        place = ('t', eng.n)
        st.mem[place] = dst
    elif not (dst[0] == 'app' and dst[1] == 'back_inserter'):
        return None
    cl = dst[2][1] if place is None else None

    def push(s, v):
        if place is not None:
            s = s.copy()
            eng.write(s, s.mem[place][1], v, n.get('l'))
            s.mem[place] = eng.ptr_add(s.mem[place], I(1), 1)
            return s
        c = eng.read(s, cl)
        s = s.copy()
        if c[0] == 'str' or (c[0] == 'app' and c[1] in ('substr', 'cstr')) or M.is_stringy(dst[3][1]):
            eng.write(s, cl, concat(c, mk_str((('chr', v),))))
        else:
            eng.write(s, cl, ('seq', c[1] + (v,)) if c[0] == 'seq' else ('app', 'push', c, v))
        return s

    def step(s, e):
        out = []
        v = eng.read(s, e[1], et)
        if kind == 'copy':
            return [(push(s, v), False)]
        for s2, c in call_fnobj(eng, s, fr, n, vs[3], [e], [et + ' &']):
            if s2.ctrl is not None:
                out.append((s2, False))
            elif kind == 'transform':
                out.append((push(s2, c), False))
            else:
                for s3, t in eng.branch(s2, eng.to_bool(c)):
                    out.append((push(s3, v) if t == (kind == 'copy_if') else s3, False))
        return out
    rs = algo_loop(eng, st, fr, n, first, last, et, step)
    if rs is None:
        if place is None:
            return None
        s = st.copy()
        eng.write(s, dst[1][1], eng.fresh('changed'), n.get('l'))
        return [(s, eng.fresh('end'))]
    return [(s, dst if place is None else s.mem[place]) for s in rs]


def whole(eng, st, n, vs):
    """(place, elements) of a container given by its begin and end, when they are known."""
    a, b = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1)
    if a[0] == b[0] == 'ptr' and a[1][0] == b[1][0] == 'el' and a[1][1] == b[1][1] and a[1][2] == ZERO:
        c = eng.read(st, a[1][1])
        if c[0] == 'seq' and b[1][2] == I(len(c[1])):
            return a[1][1], c[1]
    return None


def f_sort(eng, st, fr, n, fn, vs, q):
    w = whole(eng, st, n, vs)
    if w is None or len(w[1]) > 5:
        return None
    et = iter_etype(n)
    if len(vs) == 2 and not all(eng.intlike(x) for x in w[1]):
        return None
    work = [(st, [])]
    for x in w[1]:
        nxt = []
        for s, l in work:
            states = [s]
            for i, y in enumerate(l):
                rest = []
                for s1 in states:
                    if len(vs) == 2:
                        rs = [(s1, eng.cmp('<', x, y))]
                    else:
                        rs = call_fnobj(eng, s1, fr, n, vs[2], [('ptr', eng.temp(s1, x)), ('ptr', eng.temp(s1, y))], [et + ' &'] * 2)
                    for s2, c in rs:
                        for s3, less in eng.branch(s2, eng.to_bool(c)):
                            if less:
                                nxt.append((s3, l[:i] + [x] + l[i:]))
                            else:
                                rest.append(s3)
                states = rest
            nxt += [(s1, l + [x]) for s1 in states]
        work = nxt
    out = []
    for s, l in work:
        s = s.copy()
        eng.write(s, w[0], ('seq', tuple(l)), n.get('l'))
        out.append((s, ('app', 'void')))
    return out


def f_unique(eng, st, fr, n, fn, vs, q):
    w = whole(eng, st, n, vs)
    if w is None or len(vs) > 2 or len(w[1]) > 6:
        return None
    et = iter_etype(n)
    work = [(st, [])]
    for x in w[1]:
        nxt = []
        for s, l in work:
            if not l:
                nxt.append((s, [x]))
                continue
            for s2, c in generic_eq(eng, s, fr, n, l[-1], x, et, '=='):
                nxt += [(s3, l if same else l + [x]) for s3, same in eng.branch(s2, c)]
        work = nxt
    out = []
    for s, l in work:
        s = s.copy()
        eng.write(s, w[0], ('seq', tuple(l) + tuple(eng.fresh('left over') for _ in range(len(w[1]) - len(l)))), n.get('l'))
        out.append((s, ('ptr', ('el', w[0], I(len(l))))))
    return out


def f_accumulate(eng, st, fr, n, fn, vs, q):
    first, last = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1)
    et = iter_etype(n)
    st = st.copy()
    eng.n += 1
    acc = ('t', eng.n)
    st.mem[acc] = rvi(eng, st, n, vs, 2)
    t = n.get('t')

    def step(s, e):
        out = []
        if len(vs) > 3:
            for s2, c in call_fnobj(eng, s, fr, n, vs[3], [s.mem[acc], eng.read(s, e[1], et)], [t, et]):
                s2 = s2.copy()
                s2.mem[acc] = c
                out.append((s2, False))
            return out
        for s2, c in eng.arith(s, '+', s.mem[acc], eng.read(s, e[1], et), t, n.get('l'), fr):
            s2.mem[acc] = c
            out.append((s2, False))
        return out
    rs = algo_loop(eng, st, fr, n, first, last, et, step)
    if rs is None:
        return None
    return [(s, s.mem.get(acc, ZERO)) for s in rs]


# ------------------------------------------------------------------------------------------------ free functions
def ta0(fn):
    a = fn.get('ta') or []
    return a[0] if a else None


def f_variant(eng, st, fr, n, fn, vs, q):
    kind = q[5:]
    nd = n['a'][0]
    want = ta0(fn)
    line = n.get('l')
    if kind in ('holds_alternative', 'get'):
        vt = eng.strip(nd['t'])
        h = M.head(vt)
        loc = eng.as_loc(vs[0])
        if h != 'std::variant':
            if h in ('std::pair', 'std::tuple', 'std::array') and kind == 'get':
                try:
                    i = int(re.sub('[uUlL]', '', want))
                except (ValueError, TypeError):
                    a = M.split_targs(vt)
                    i = a.index(want)
                if h == 'std::array':
                    return [(st, ('ptr', ('el', loc, I(i))))]
                f = (('first', 'second')[i] if h == 'std::pair' else f'get{i}')
                return [(st, ('ptr', ('fl', loc, f)))]
            return None
    elif kind == 'get_if':
        if vs[0] == NULL:
            return [(st, NULL)]
        loc = eng.as_loc(vs[0])
        vt = eng.strip(nd['t'])
        if vt.endswith('*'):
            vt = eng.strip(vt[:-1].strip())
    alts = M.split_targs(vt)
    v = eng.read(st, loc, vt)
    if want in alts:
        i = alts.index(want)
    else:
        try:
            i = int(re.sub('[uUlL]', '', want))
        except (ValueError, TypeError):
            return None
    c = M.alt_is(eng, v, alts, i)
    if kind == 'holds_alternative':
        return [(st, c)]
    out = []
    for s, t in eng.branch(st, c):
        if t:
            out.append((s, ('ptr', ('fl', loc, '<' + alts[i] + '>'))))
        elif kind == 'get_if':
            out.append((s, NULL))
        else:
            out.append((M.throw(eng, s, 'std::bad_variant_access', line, fr), ZERO))
    return out


def f_visit(eng, st, fr, n, fn, vs, q):
    if len(vs) != 2:
        return None
    nd = n['a'][1]
    vt = eng.strip(nd['t'])
    alts = M.split_targs(vt)
    loc = eng.as_loc(vs[1])
    v = eng.read(st, loc, vt)
    out = []
    rest = [st]
    for i, a in enumerate(alts):
        nrest = []
        for r in rest:
            for s, t in eng.branch(r, M.alt_is(eng, v, alts, i)):
                if not t:
                    nrest.append(s)
                    continue
                isconst = nd['t'].startswith('const ')
                out += call_fnobj(eng, s, fr, n, vs[0], [('ptr', ('fl', loc, '<' + a + '>'))],
                                  [('const ' if isconst else '') + a + ' &'])
        rest = nrest
    return out


def f_strop(eng, st, fr, n, fn, vs, q):
    """free operators on library values."""
    op = fn.get('op')
    pts = fn.get('pt', [])
    t0 = eng.strip(n['a'][0].get('t', '')) if n.get('a') else ''
    t1 = eng.strip(n['a'][1].get('t', '')) if len(n.get('a', [])) > 1 else ''
    p0 = eng.strip(pts[0]) if pts else ''
    p1 = eng.strip(pts[1]) if len(pts) > 1 else ''
    if op == '<<' and M.head(p0) in M.STREAMS:
        v = M.val(eng, st, fn, 1, vs[1], n)
        t = t1
        if M.is_stringy(p1):
            v = M.arg_str(eng, st, fn, 1, vs[1], n)
            t = p1
        elif p1.endswith('*') or p1.startswith('char['):
            v = vs[1]
            t = 'const char *' if 'char' in p1 else p1
        elif p1 in ('char', 'unsigned char', 'signed char'):
            t = p1
        return stream_insert(eng, st, fr, n, eng.as_loc(vs[0]), v, t, pts)
    if op == '+' and (M.is_stringy(p0) or M.is_stringy(p1)):
        a = M.arg_str(eng, st, fn, 0, vs[0], n)
        b = M.arg_str(eng, st, fn, 1, vs[1], n)
        return [(st, concat(a, b))]
    if op in ('==', '!=', '<', '>', '<=', '>='):
        maybe = 'std::optional' in (M.head(t0), M.head(t1))
        if not maybe and (M.is_stringy(p0) or M.is_stringy(p1) or M.is_stringy(t0) or M.is_stringy(t1)):
            a = M.arg_str(eng, st, fn, 0, vs[0], n)
            b = M.arg_str(eng, st, fn, 1, vs[1], n)
            if op in ('==', '!='):
                c = str_eq(eng, st, a, b)
                return [(st, c if op == '==' else eng.neg(c))]
            return [(s, eng.cmp(op, r, ZERO)) for s, r in order(eng, st, a, b)]
        if M.head(t0) == 'std::optional' or M.head(t1) == 'std::optional':
            a = M.val(eng, st, fn, 0, vs[0], n)
            b = M.val(eng, st, fn, 1, vs[1], n)
            if op in ('==', '!=') and ('nullopt' in t1 or b == NULLOPT):
                c = eng.neg(M.engaged(eng, a))
                return [(st, c if op == '==' else eng.neg(c))]
            if op in ('==', '!=') and ('nullopt' in t0 or a == NULLOPT):
                c = eng.neg(M.engaged(eng, b))
                return [(st, c if op == '==' else eng.neg(c))]
            if 'nullopt' not in t0 + t1:
                ao = M.head(t0) == 'std::optional'
                bo = M.head(t1) == 'std::optional'
                out = []
                for s, ea in (eng.branch(st, M.engaged(eng, a)) if ao else [(st, True)]):
                    for s2, eb in (eng.branch(s, M.engaged(eng, b)) if bo else [(s, True)]):
                        if ea and eb:
                            it = M.split_targs(t0 if ao else t1)[0]
                            if M.is_stringy(it):
                                a1, b1 = (x if o else M.arg_str(eng, s2, fn, i, vs[i], n) for i, (x, o) in enumerate(((a, ao), (b, bo))))
                            else:
                                a1, b1 = a, b
                            x = eng.proj(s2, a1, '*', it) if ao else a1
                            y = eng.proj(s2, b1, '*', it) if bo else b1
                            out += generic_eq(eng, s2, fr, n, x, y, it, op)
                        else:
                            out.append((s2, I(int({'==': ea == eb, '!=': ea != eb, '<': ea < eb, '>': ea > eb, '<=': ea <= eb, '>=': ea >= eb}[op]))))
                return out
        if M.head(t0) in M.SMART or M.head(t1) in M.SMART or M.head(p0) in M.ITERS or M.head(t0) in M.ITERS \
                or M.head(p0).endswith('_iterator') or M.head(p0) == 'std::__detail::_Node_iterator_base':
            a = M.val(eng, st, fn, 0, vs[0], n)
            b = M.val(eng, st, fn, 1, vs[1], n)
            if 'nullptr_t' in t1:
                b = NULL
            if 'nullptr_t' in t0:
                a = NULL
            a, b = map_end(eng, st, a, b), map_end(eng, st, b, a)
            return [(st, eng.cmp(op, a, b))]
        a = M.val(eng, st, fn, 0, vs[0], n)
        b = M.val(eng, st, fn, 1, vs[1], n)
        return generic_eq(eng, st, fr, n, a, b, t0, op)
    if op in ('+', '-') and M.head(t0) in ('std::chrono::time_point', 'std::chrono::duration'):
        a = M.val(eng, st, fn, 0, vs[0], n)
        b = M.val(eng, st, fn, 1, vs[1], n)
        if M.head(t0) == M.head(t1) == 'std::chrono::duration' and t0 == t1:
            return [(st, add(a, b) if op == '+' else sub(a, b))]
        r = eng.strip((n.get('t') or '').rstrip('&'))
        if M.head(r) in ('std::chrono::time_point', 'std::chrono::duration'):
            a, b = (M.dur_cast(eng, st, v, M.tp_dur(t), M.tp_dur(r)) for v, t in ((a, t0), (b, t1)))
        return [(st, add(a, b) if op == '+' else sub(a, b))]
    if op in ('+', '-') and (M.head(t0) in M.ITERS or M.head(t1) in M.ITERS):
        a = M.val(eng, st, fn, 0, vs[0], n)
        b = M.val(eng, st, fn, 1, vs[1], n)
        if a[0] == 'ptr' and b[0] == 'ptr':
            return [(st, eng.ptr_diff(a, b))]
        return [(st, eng.ptr_add(a, b, 1 if op == '+' else -1))]
    return None


def generic_eq(eng, st, fr, n, a, b, t, op):
    """comparison of two values of static type t (structural for library types)."""
    h = M.head(t)
    if op in ('==', '!='):
        if M.is_stringy(t):
            c = str_eq(eng, st, a, b)
            return [(st, c if op == '==' else eng.neg(c))]
        if h == 'std::variant' and a != b:
            al = M.split_targs(eng.strip(t))
            out = []
            for i, T in enumerate(al):
                for s, y in eng.branch(st, M.alt_is(eng, a, al, i)):
                    if not y:
                        continue
                    for s2, z in eng.branch(s, M.alt_is(eng, b, al, i)):
                        if not z:
                            out.append((s2, I(op == '!=')))
                        else:
                            out += generic_eq(eng, s2, fr, n, eng.proj(s2, a, f'<{T}>', T), eng.proj(s2, b, f'<{T}>', T), T, op)
            return out
        if h in ('std::pair', 'std::tuple'):
            return tuple_cmp(eng, st, fr, n, a, b, M.split_targs(eng.strip(t)), h, op)
        r = eng.db.recs.get(eng.strip(t))
        if r is not None:
            f = [g for g in eng.db.fns.values() if g.get('op') == '==' and not g.get('dep') and
                 ([eng.strip(p['t']) for p in g['params']] == [eng.strip(t)] * 2 or
                  (g.get('clst') == eng.strip(t) and [eng.strip(p['t']) for p in g['params']] == [eng.strip(t)]))]
            if f:
                la, lb = eng.temp(st, a), eng.temp(st, b)
                g = f[0]
                rs = eng.invoke(g, st, None, [('ptr', la), ('ptr', lb)], n, fr) if len(g['params']) == 2 else \
                    eng.invoke(g, st, la, [('ptr', lb)], n, fr)
                return [(s, v if op == '==' or s.ctrl is not None else eng.neg(v)) for s, v in rs]
        if a[0] == b[0] == 'seq' and a != b and h in ('std::vector', 'std::array', 'std::deque', 'std::list', 'std::initializer_list'):
            if len(a[1]) != len(b[1]):
                return [(st, I(op == '!='))]
            if len(a[1]) <= 8:
                return seq_eq(eng, st, fr, n, a[1], b[1], M.split_targs(eng.strip(t))[0], op)
        c = eng.cmp('==', a, b)
        return [(st, c if op == '==' else eng.neg(c))]
    if h in ('std::pair', 'std::tuple') and op in ('<', '<=', '>', '>='):
        return tuple_cmp(eng, st, fr, n, a, b, M.split_targs(eng.strip(t)), h, op)
    return [(st, eng.cmp(op, a, b))]


def seq_eq(eng, st, fr, n, xs, ys, T, op):
    work, out = [st], []
    for x, y in zip(xs, ys):
        nxt = []
        for s in work:
            for s2, c in generic_eq(eng, s, fr, n, x, y, eng.strip(T), '=='):
                if s2.ctrl is not None:
                    out.append((s2, FALSE))
                    continue
                for s3, v in eng.branch(s2, c):
                    if v:
                        nxt.append(s3)
                    else:
                        out.append((s3, I(op == '!=')))
        work = nxt
    return out + [(s, I(op == '==')) for s in work]


def tuple_cmp(eng, st, fr, n, a, b, targs, h, op):
    """element by element: equality, or lexicographic order."""
    names = ['first', 'second'] if h == 'std::pair' else [f'get{i}' for i in range(len(targs))]
    work = [st]
    out = []
    for name, T in zip(names, targs):
        nxt = []
        for s in work:
            x, y = eng.proj(s, a, name, T), eng.proj(s, b, name, T)
            U = eng.strip(T)
            if T.rstrip().endswith('&'):
                x, y = [eng.read(s, v[1], U) if v[0] == 'ptr' else v for v in (x, y)]
            if op in ('==', '!='):
                for s2, c in generic_eq(eng, s, fr, n, x, y, U, '=='):
                    if s2.ctrl is not None:
                        out.append((s2, FALSE))
                        continue
                    for s3, v in eng.branch(s2, c):
                        if v:
                            nxt.append(s3)
                        else:
                            out.append((s3, I(op == '!=')))
            else:
                for s2, c in generic_eq(eng, s, fr, n, x, y, U, '<'):
                    for s3, v in eng.branch(s2, c):
                        if v:
                            out.append((s3, I(op in ('<', '<='))))
                            continue
                        for s4, c4 in generic_eq(eng, s3, fr, n, y, x, U, '<'):
                            for s5, v5 in eng.branch(s4, c4):
                                if v5:
                                    out.append((s5, I(op in ('>', '>='))))
                                else:
                                    nxt.append(s5)
        work = nxt
    return out + [(s, I(op in ('==', '<=', '>='))) for s in work]


FNOBJ = {'std::equal_to': '==', 'std::not_equal_to': '!=', 'std::less': '<', 'std::greater': '>', 'std::less_equal': '<=', 'std::greater_equal': '>='}


def m_fnobj(eng, st, fr, n, fn, base, vs, h, m):
    if m != 'operator()' or len(vs) != 2:
        return None
    t = (M.split_targs(eng.strip(fn['clst'])) or ['void'])[0]
    a = M.val(eng, st, fn, 0, vs[0], n)
    b = M.val(eng, st, fn, 1, vs[1], n)
    if t == 'void':
        ns = n.get('a', [])
        t = eng.strip(ns[-2]['t']) if len(ns) >= 2 else ''
    return generic_eq(eng, st, fr, n, a, b, t, FNOBJ[h])


def f_minmax(eng, st, fr, n, fn, vs, q):
    if len(vs) < 2:
        return None
    a = M.val(eng, st, fn, 0, vs[0], n)
    b = M.val(eng, st, fn, 1, vs[1], n)
    out = []
    if not (eng.intlike(a) and eng.intlike(b)):
        x, y = sorted((a, b), key=repr)
        return [(st, ('ptr', eng.temp(st, ('app', q[5:], x, y))))] if n.get('lv') else [(st, ('app', q[5:], x, y))]
    for s, t in eng.branch(st, eng.cmp('<', b, a) if q == 'std::min' else eng.cmp('<', a, b)):
        out.append((s, vs[1] if t else vs[0]))
    return out


def memtext(v):
    """contents of a block of memory kept as text."""
    return v[0] == 'str' or v[0] == 'app' and v[1] in ('substr', 'filled')


def block_of(eng, st, p):
    """(location, contents, offset) of a block of the heap kept as text, or None."""
    if p[0] == 'ptr' and p[1][0] == 'el' and p[1][1][0] == 'h':
        c = eng.read(st, p[1][1])
        if memtext(c) or p[1][1][2] == 'char[]' and eng.byte_blocks:
            return p[1][1], c, p[1][2]
    if eng.byte_blocks and p[0] == 'ptr' and p[1][0] == 'el' and p[1][1][0] == 'fl':
        loc = p[1][1]
        c = eng.read(st, loc)
        if c[0] == 'seq' and all(x[0] == 'i' for x in c[1]):
            c = lit(bytes(x[1] & 255 for x in c[1]))
        if memtext(c):
            return loc, c, p[1][2]
        n = char_array(eng, loc)
        if n is not None and c[0] == 'app':
            return loc, ('app', 'substr', ('app', 'noise', loc), ZERO, I(n)), p[1][2]
    return None


def char_array(eng, loc):
    """size of the array of characters at the location, or None."""
    t = eng.loc_type(loc)
    if t is None and loc[1][0] == 'fl' and loc[1][1][0] == 'fl' and loc[1][1][2] == '':
        u = eng.union_with(loc[1][2])
        for f in (u or {}).get('fields', ()):
            if f['n'] == loc[1][2]:
                r = eng.rec_of(f['t'])
                for g in (r or {}).get('fields', ()):
                    if g['n'] == loc[2]:
                        t = g['t']
    m = re.fullmatch(r'(?:const |unsigned )?char ?\[(\d+)\]', t or '')
    return int(m.group(1)) if m else None


def within(eng, st, size, off, ln):
    """(state, whether the range is inside the block) pairs."""
    if ln == ZERO:
        return [(st, True)]
    return eng.branch(st, eng.cmp('<=', add(off, ln), size))


def f_alloc(eng, st, fr, n, fn, vs, q):
    """a new block with arbitrary contents."""
    eng.n += 1
    loc = ('h', eng.n, 'char[]')
    s = st.copy()
    size = vs[-1]
    s.mem[loc] = ('app', 'substr', ('app', 'noise', eng.n), ZERO, size)
    s.ev('alloc', loc, vs)
    return [(s, ('ptr', ('el', loc, ZERO)))]


def outside(s, what, line, q):
    s = s.copy()
    s.ctrl = ('outside', line, what)
    return s, ZERO


def f_mem(eng, st, fr, n, fn, vs, q):
    nm = q.split('::')[-1]
    s = st.copy()
    line = n.get('l')
    blk = block_of(eng, s, vs[0]) if nm != 'strlen' else None
    from_ = block_of(eng, s, vs[1]) if nm in ('memcpy', 'memmove') else None
    if nm in ('memcpy', 'memmove', 'memset') and (blk or from_):
        out = []
        s.ev(nm, vs[0], vs[1], vs[2], line)
        for s, ok in eng.branch(s, eng.cmp('==', vs[2], ZERO)):
            none = ok
            for s, ok in (within(eng, s, slen(from_[1]), from_[2], vs[2]) if from_ and not none else [(s, True)]):
                if not ok:
                    out.append(outside(s, nm, line, fr))
                    continue
                for s, ok in (within(eng, s, slen(blk[1]), blk[2], vs[2]) if blk and not none else [(s, True)]):
                    if NULL in vs[:1 if nm == 'memset' else 2]:
                        out.append((s, vs[0]) if none else outside(s, nm, line, fr))
                        continue
                    if not ok:
                        out.append(outside(s, nm, line, fr))
                        continue
                    if nm == 'memset':
                        data = ('app', 'filled', vs[2], vs[1])
                    elif from_:
                        data = M.substr(eng, s, from_[1], from_[2], vs[2])
                    else:
                        data = M.range_str(eng, s, vs[1], vs[2])
                    s = s.copy()
                    if blk:
                        loc, c, off = blk
                        rest = sub(slen(c), add(off, vs[2]))
                        v = concat(concat(M.substr(eng, s, c, ZERO, off), data), M.substr(eng, s, c, add(off, vs[2]), rest))
                        eng.write(s, loc, v, line)
                    else:
                        d = vs[0]
                        at, off = (d[1][1], d[1][2]) if d[1][0] == 'el' else (d[1], ZERO)
                        eng.write(s, at, ('app', 'blit', eng.read(s, at), off, data), line)
                    out.append((s, vs[0]))
        return out
    if nm in ('memcpy', 'memmove'):
        s.ev('memcpy', vs[0], vs[1], vs[2], line)
        src = vs[1]
        data = None
        if src[0] == 'ptr' and src[1][0] == 'chr':
            data = M.substr(eng, s, src[1][1], src[1][2], vs[2])
        elif src[0] == 'ptr' and src[1][0] == 'el':
            data = ('app', 'bytes', eng.read(s, src[1][1]), src[1][2], vs[2])
        else:
            data = ('app', 'bytes', src, ZERO, vs[2])
        d = vs[0]
        if d[0] == 'ptr' and d[1][0] == 'el':
            old = eng.read(s, d[1][1])
            eng.write(s, d[1][1], ('app', 'blit', old, d[1][2], data), line)
        elif d[0] == 'ptr':
            eng.write(s, d[1], ('app', 'blit', eng.read(s, d[1]), ZERO, data), line)
        return [(s, d)]
    if nm == 'memset':
        s.ev('memset', vs[0], vs[1], vs[2], line)
        d = vs[0]
        data = ('app', 'filled', vs[2], vs[1])
        if d[0] == 'ptr' and d[1][0] == 'el':
            eng.write(s, d[1][1], ('app', 'blit', eng.read(s, d[1][1]), d[1][2], data), line)
        elif d[0] == 'ptr':
            eng.write(s, d[1], ('app', 'blit', eng.read(s, d[1]), ZERO, data), line)
        return [(s, d)]
    if nm == 'memcmp':
        a = M.range_str(eng, s, vs[0], vs[2])
        b = M.range_str(eng, s, vs[1], vs[2])
        return order(eng, s, a, b)
    if nm in ('strlen',):
        return [(s, slen(M.cstr(eng, s, vs[0])))]
    return None


CT = {'isalnum': lambda c: chr(c).isalnum() and c < 128, 'isalpha': lambda c: chr(c).isalpha() and c < 128,
      'isdigit': lambda c: 48 <= c <= 57, 'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF',
      'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isupper': lambda c: 65 <= c <= 90,
      'islower': lambda c: 97 <= c <= 122, 'isprint': lambda c: 32 <= c < 127, 'iscntrl': lambda c: c < 32 or c == 127,
      'isgraph': lambda c: 33 <= c < 127, 'ispunct': lambda c: 33 <= c < 127 and not chr(c).isalnum(),
      'isblank': lambda c: c in (9, 32)}


def f_ctype(eng, st, fr, n, fn, vs, q):
    nm = q.split('::')[-1]
    v = vs[0]
    if nm in CT:
        g = lambda x: int(bool(CT[nm](x & 255))) if 0 <= x < 256 else 0
        if v[0] == 'i':
            return [(st, I(g(v[1])))]
        if v[0] == 'btab':
            return [(st, norm_btab(v[1], tuple(g(x) for x in v[2])))]
        x = ('app', nm, v)
        eng.ranges[x] = (0, 1)
        return [(st, x)]
    g = (lambda x: x + 32 if 65 <= x <= 90 else x) if nm == 'tolower' else (lambda x: x - 32 if 97 <= x <= 122 else x)
    if v[0] == 'i':
        return [(st, I(g(v[1])))]
    if v[0] == 'btab':
        return [(st, norm_btab(v[1], tuple(g(x) for x in v[2])))]
    return [(st, eng.int_app(nm, v, ZERO, 'int'))]


def f_make(eng, st, fr, n, fn, vs, q):
    t = ta0(fn)
    if t is None:
        return None
    if t.endswith('[]'):
        eng.n += 1
        loc = ('h', eng.n, t)
        s = st.copy()
        s.mem[loc] = ('app', 'filled', vs[0], eng.zero_of(s, t[:-2]))
        return [(s, ('ptr', ('el', loc, ZERO)))]
    out = []
    for s, v in M.build(eng, st, fr, t, vs, M.arg_types(fn, n.get('a', []), vs), n):
        if s.ctrl is not None:
            out.append((s, ZERO))
            continue
        s = s.copy()
        eng.n += 1
        loc = ('h', eng.n, t)
        s.mem[loc] = v
        out.append((s, ('ptr', loc)))
    return out


def call(eng, st, fr, n, fn, base, vs):
    q = fn['q']
    cls = fn.get('clst')
    if cls is not None and base is not None:
        h = M.head(cls)
        f = METHODS.get(h)
        if f is None and (h.startswith('std::__atomic') or h.startswith('std::atomic')):
            f = m_atomic
        if f is not None:
            m = q[len(cls):] if q.startswith(cls) else '::' + q.rsplit('::', 1)[-1]
            m = m.lstrip(':')
            if m.startswith('operator') and fn.get('op'):
                m = 'operator' + fn['op']
            elif m.startswith('operator '):
                m = m if h in (M.STRING,) else ('operator bool' if n.get('t') == 'bool' and h not in ('std::atomic',) else m)
            if '<' in m and not m.startswith('operator'):
                m = m.split('<')[0]
            r = f(eng, st, fr, n, fn, base, vs, h, m)
            if r is not None:
                return r
        if '::proto' in h and h.startswith(('jogasaki::proto::', 'tateyama::proto::', 'google::protobuf')):
            from . import models_proto
            r = models_proto.call(eng, st, fr, n, fn, base, vs)
            if r is not None:
                return r
        if h.startswith('google::') or h == 'google::LogMessageVoidify':
            return [(st, ('ptr', ('d', ('app', 'log'))))] if n.get('lv') else [(st, ('app', 'log'))]
        if (h in M.STD_EXC_BASES or h == 'std::exception') and q.endswith('::what'):
            v = eng.read(st, base)
            if v[0] == 'app' and v[1] == 'exc' and len(v) > 3:
                return [(st, ('ptr', ('chr', v[3], ZERO)))]
            return [(st, ('ptr', ('chr', ('app', 'what', v), ZERO)))]
        return None
    if q.startswith('nlohmann::basic_json') and q.endswith('::parse') and base is None:
        x = eng.read(st, vs[0][1]) if vs[0][0] == 'ptr' else vs[0]
        return [(st, x[2] if x[0] == 'app' and x[1] == 'dump' else ('app', 'parse', x))]
    if q.startswith('nlohmann::basic_json') and q.endswith('::object') and base is None and not (vs and vs[0] != ('seq', ())):
        return [(st, ('seq', ()))]
    if not q.startswith('std::') and '::' in q:
        if q.startswith('google::') or q.startswith('boost::') or q.startswith('__gnu_cxx::') or q.startswith('plugin::') is None:
            pass
        if q.startswith('google::Demangle') or q.startswith('google::Init') or q.startswith('google::IsGoogle'):
            return [(st, ('app', 'log'))]
        if not q.startswith('__gnu_cxx::'):
            return None
    nm = q.split('::')[-1]
    if q.startswith('std::literals') or nm.startswith('operator""'):
        if nm.startswith('operator""s') and vs:
            return [(st, M.range_str(eng, st, vs[0], vs[1]))]
        return [(st, vs[0])]
    if fn.get('op') and len(vs) >= 1:
        r = f_strop(eng, st, fr, n, fn, vs, q)
        if r is not None:
            return r
        return None
    if q in ('std::move', 'std::forward', 'std::as_const') and len(vs) == 1:
        return [(st, vs[0])]
    if q in ('std::addressof', 'std::__addressof'):
        return [(st, vs[0])]
    if q == 'std::ref' or q == 'std::cref':
        return [(st, vs[0])]
    if q in ('std::holds_alternative', 'std::get', 'std::get_if'):
        return f_variant(eng, st, fr, n, fn, vs, q)
    if q == 'std::visit':
        return f_visit(eng, st, fr, n, fn, vs, q)
    if q in ('std::make_unique', 'std::make_shared', 'std::allocate_shared'):
        return f_make(eng, st, fr, n, fn, vs, q)
    if q in ('std::make_pair', 'std::make_tuple', 'std::tie', 'std::forward_as_tuple'):
        vals = vs if q == 'std::tie' else [M.val(eng, st, fn, i, v, n) for i, v in enumerate(vs)]
        names = ['first', 'second'] if q == 'std::make_pair' else [f'get{i}' for i in range(len(vs))]
        vals = [M.cstr(eng, st, v) if v[0] == 'ptr' and v[1][0] in ('lit',) else v for v in vals]
        return [(st, ('st', n['t'], tuple(zip(names, vals))))]
    if q == 'std::make_optional':
        at = M.arg_types(fn, n.get('a', []), vs)
        it = M.split_targs(n['t'])[0]
        return [(s, ('opt', v)) for s, v in M.build(eng, st, fr, it, vs, at, n)]
    if q == 'std::exchange':
        loc = eng.as_loc(vs[0])
        t = n['a'][0].get('t')
        old = eng.read(st, loc, t)
        nv = M.val(eng, st, fn, 1, vs[1], n)
        if eng.tinfo(eng.strip(t)).get('k') in ('int', 'bool'):
            nv = eng.convert(st, nv, n['a'][1].get('t', t), t)
        s = st.copy()
        eng.write(s, loc, nv, n.get('l'))
        return [(s, old)]
    if q == 'std::swap' or q == 'std::iter_swap':
        a, b = eng.as_loc(vs[0]), eng.as_loc(vs[1])
        t = n['a'][0].get('t')
        va, vb = eng.read(st, a, t), eng.read(st, b, t)
        s = st.copy()
        eng.write(s, a, vb, n.get('l'))
        eng.write(s, b, va, n.get('l'))
        return [(s, ('app', 'void'))]
    if q in ('std::min', 'std::max'):
        return f_minmax(eng, st, fr, n, fn, vs, q)
    if q in ('std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::find', 'std::find_if_not'):
        return f_any(eng, st, fr, n, fn, vs, q)
    if q == 'std::for_each':
        return f_for_each(eng, st, fr, n, fn, vs, q)
    if q == 'std::equal' and eng.byte_blocks and len(vs) in (3, 4) and all(v[0] == 'ptr' and v[1][0] == 'chr' for v in vs) \
            and len({v[1][1] for v in vs[:2]}) == 1 == len({v[1][1] for v in vs[2:]}):
        ns = sub(vs[1][1][2], vs[0][1][2])
        a, b = (M.range_str(eng, st, v, ns) for v in (vs[0], vs[2]))
        if len(vs) == 3:
            return [(st, str_eq(eng, st, a, b))]
        return [(s, str_eq(eng, s, a, b) if ok else FALSE) for s, ok in eng.branch(st, eng.cmp('==', ns, sub(vs[3][1][2], vs[2][1][2])))]
    if q in ('std::sort', 'std::stable_sort', 'std::unique'):
        r = (f_unique if q == 'std::unique' else f_sort)(eng, st, fr, n, fn, vs, q)
        if r is not None:
            return r
    if q in ('std::copy', 'std::copy_if', 'std::transform', 'std::remove_copy_if'):
        return f_copy(eng, st, fr, n, fn, vs, q)
    if q == 'std::accumulate':
        return f_accumulate(eng, st, fr, n, fn, vs, q)
    if q == 'std::back_inserter':
        return [(st, ('app', 'back_inserter', vs[0], ('n', eng.strip(n['a'][0].get('t', '')))))]
    if q in ('std::begin', 'std::end', 'std::cbegin', 'std::cend', 'std::size', 'std::data', 'std::empty'):
        t = eng.strip(n['a'][0].get('t', ''))
        f = METHODS.get(M.head(t))
        if f is not None:
            return f(eng, st, fr, n, {'clst': t, 'q': '', 'pt': [], 'const': n['a'][0].get('t', '').startswith('const')},
                     eng.as_loc(vs[0]), [], M.head(t), nm)
        ti = eng.tinfo(t)
        if ti.get('k') == 'arr':
            i = {'begin': ZERO, 'cbegin': ZERO, 'data': ZERO}.get(nm, I(ti.get('n', 0)))
            if nm == 'size':
                return [(st, i)]
            return [(st, ('ptr', ('el', eng.as_loc(vs[0]), i)))]
        return None
    if q in ('std::next', 'std::prev'):
        d = vs[1] if len(vs) > 1 else I(1)
        return [(st, eng.ptr_add(rvi(eng, st, n, vs, 0), d, 1 if nm == 'next' else -1))]
    if q == 'std::distance':
        a, b = rvi(eng, st, n, vs, 0), rvi(eng, st, n, vs, 1)
        if a[0] == b[0] == 'ptr':
            return [(st, eng.ptr_diff(b, a))]
    if q == 'std::to_string':
        v = vs[0]
        if v[0] == 'i':
            return [(st, lit(str(v[1])))]
        if eng.tinfo(n['a'][0].get('t')).get('k') == 'float':
            return [(st, ('app', 'fmtf', v))]
        return [(st, mk_str((('s', ('app', 'dec', v)),)))]
    if q in ('std::setw', 'std::setfill', 'std::setbase', 'std::setprecision'):
        return [(st, ('app', nm, vs[0]))]
    if nm in ('aligned_alloc', 'malloc') and eng.byte_blocks:
        return f_alloc(eng, st, fr, n, fn, vs, q)
    if nm == 'free' and eng.byte_blocks and q in ('free', 'std::free'):
        s = st.copy()
        s.ev('free', vs[0], n.get('l'))
        return [(s, ('app', 'void'))]
    if nm in ('memcpy', 'memmove', 'memset', 'memcmp', 'strlen'):
        return f_mem(eng, st, fr, n, fn, vs, q)
    if nm in CT or nm in ('tolower', 'toupper'):
        return f_ctype(eng, st, fr, n, fn, vs, q)
    if nm in ('abort', 'terminate', '_Exit', 'exit', '__assert_fail', '__builtin_unreachable'):
        s = st.copy()
        if nm in ('exit', '_Exit'):
            s.ctrl = ('abort', n.get('l'))
        else:
            s.ctrl = ('abort', n.get('l'))
        return [(s, ZERO)]
    if q in ('std::uncaught_exceptions', 'std::uncaught_exception'):
        return [(st, I(eng.unwinding))]
    if q == 'std::rethrow_exception':
        return [(M.throw(eng, st, None, n.get('l'), fr), ZERO)]
    if q == 'std::chrono::duration_cast':
        v = M.val(eng, st, fn, 0, vs[0], n)
        return [(st, M.dur_cast(eng, st, v, eng.strip(n['a'][0]['t']), eng.strip(n['t'])))]
    if nm == 'now' and 'clock' in q:
        s = st.copy()
        v = eng.fresh('now')
        # a reading lies after the epoch; readings of a steady clock never go back
        eng.ranges[v] = (1, 1 << 61)
        if 'steady' in q:
            for x in reversed(s.eff):
                if x[0] == 'now' and x[3] == q:
                    s.facts.add_ge0(sub(v, x[1]), eng.ranges)
                    break
        s.ev('now', v, n.get('l'), q)
        return [(s, v)]
    if nm in ('max', 'min') and not vs and q.startswith('std::chrono::time_point'):
        return [(st, I((1 << 63) - 1 if nm == 'max' else -(1 << 63)))]
    if nm in ('__builtin_clz', '__builtin_clzl', '__builtin_clzll', '__builtin_ctz', '__builtin_ctzl', '__builtin_ctzll'):
        w = 32 if nm[-1] == 'z' else 64
        bits = to_bits(vs[0], w)
        if bits is not None:
            seq = bits[::-1] if 'clz' in nm else bits
            for i, b in enumerate(seq):
                if b == 1:
                    return [(st, I(i))]
                if b != 0:
                    break
        v = eng.opaque_value(('app', nm.strip('_'), vs[0]), 'int')
        eng.ranges[v] = (0, w - 1)
        return [(st, v)]
    if nm in ('__builtin_expect',):
        return [(st, vs[0])]
    if q == 'std::isnan' or q == 'std::signbit' or q == 'std::isinf':
        v = ('app', nm, *vs)
        eng.ranges[v] = (0, 1)
        return [(st, v)]
    if nm in ('abs', 'labs') and vs[0][0] != 'f':
        v = vs[0]
        if eng.intlike(v):
            out = []
            for s, t in eng.branch(st, eng.cmp('<', v, ZERO)):
                out.append((s, scale(v, -1) if t else v))
            return out
    return None


def opaque_call(eng, st, fr, n, fn, base, vs):
    """a callee without an analysable body."""
    q = fn['q']
    st = st.copy()
    nodes = n.get('a', [])
    pts = fn.get('pt', [])
    vals = []
    outs = []
    for i, v in enumerate(vs):
        pt = pts[i] if i < len(pts) else ''
        nd = nodes[i] if i < len(nodes) else None
        if v[0] == 'ptr' and (pt.endswith('&') or (nd is not None and nd.get('lv'))):
            vals.append(eng.read(st, v[1], nd.get('t') if nd else None) if v[1][0] != 'lit' else v)
            if pt.endswith('&') and not pt.startswith('const ') and not pt.endswith('&&'):
                outs.append((i, v[1]))
        else:
            vals.append(v)
            if v[0] == 'ptr' and pt.endswith('*') and not pt.startswith('const ') and v[1][0] not in ('chr', 'lit'):
                outs.append((i, v[1]))
    vals = tuple(vals)
    recv = None
    if base is not None:
        recv = eng.read(st, base, fn.get('clst'))
        if recv[0] == 'app' and recv[1] == 'init' and recv[2] == base and eng.root(base)[0] in ('d',):
            recv = ('ptr', base)
        elif recv[0] == 'st' and not recv[2] and eng.root(base)[0] == 'd':
            recv = ('ptr', base)        # an interface: only its identity is known
    if not fn.get('repo') and not q.startswith('jogasaki') and not q.startswith('plugin'):
        unk(eng, q)
    pure = (base is not None and fn.get('const')) or (base is None and not outs)
    for p in eng.throwing:
        if p(fn):
            s2 = st.copy()
            s2.ctrl = ('throw', ('app', 'exc', ('n', q)), None, n.get('l'), fr.fn.get('q') if fr else '?')
            s2.ev('call', q, recv, vals, n.get('l'), st.locks, None)
            break
    else:
        s2 = None
    if pure and not fn.get('virt'):
        res = ('app', 'call:' + q) + ((recv,) if base is not None else ()) + vals
    else:
        eng.n += 1
        res = ('app', 'call:' + q, ('i', eng.n)) if not pure else ('app', 'call:' + q, recv, *vals)
        if pure:
            pass
    st.ev('call', q, recv, vals, n.get('l'), st.locks, res)
    if base is not None and not fn.get('const') and eng.root(base)[0] != 'd':
        if not (base[0] == 'd'):
            eng.write(st, base, ('app', 'after:' + q, recv, *vals), n.get('l'), log=False)
    for i, l in outs:
        eng.write(st, l, eng.fresh('out:' + q + ':' + str(i)), n.get('l'), log=False)
    if fn.get('noret'):
        st.ctrl = ('abort', n.get('l'))
    t = n.get('t')
    if n.get('lv'):
        r = ('ptr', ('d', res))
    elif t == 'void':
        r = ('app', 'void')
    else:
        r = eng.opaque_value(res, t)
    out = [(st, r if st.ctrl is None else ZERO)]
    if s2 is not None:
        out.append((s2, ZERO))
    return out
