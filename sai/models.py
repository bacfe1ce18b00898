"""Models of the C++ standard library (and the few third-party types the repository uses) over abstract values."""
import re

from .terms import *

GLOBALS = {'std::nullopt': ('nullopt',), 'std::ignore': ('app', 'ignore')}
BOOL_APPS = {'strless', 'eq', 'same', 'lt', 'le', 'ge0', 'eq0', 'not', 'cmpv', 'engaged', 'has', 'more', 'f<', 'f<=', 'f>', 'f>=', 'f==', 'f!=',
             'owns', 'truthy', 'exists', 'startswith'}

STD_EXC_BASES = {
    'std::runtime_error': ['std::exception'], 'std::logic_error': ['std::exception'],
    'std::out_of_range': ['std::logic_error'], 'std::invalid_argument': ['std::logic_error'],
    'std::domain_error': ['std::logic_error'], 'std::length_error': ['std::logic_error'],
    'std::overflow_error': ['std::runtime_error'], 'std::range_error': ['std::runtime_error'],
    'std::bad_alloc': ['std::exception'], 'std::bad_cast': ['std::exception'],
    'std::bad_variant_access': ['std::exception'], 'std::bad_optional_access': ['std::exception'],
    'std::system_error': ['std::runtime_error'], 'std::ios_base::failure': ['std::system_error'],
    'std::ios_base::failure[abi:cxx11]': ['std::system_error'],
    'nlohmann::detail::parse_error': ['nlohmann::detail::exception'],
    'nlohmann::detail::type_error': ['nlohmann::detail::exception'],
    'nlohmann::detail::exception': ['std::exception'],
    'boost::property_tree::ini_parser::ini_parser_error': ['boost::property_tree::file_parser_error'],
    'boost::property_tree::file_parser_error': ['boost::property_tree::ptree_error'],
    'boost::property_tree::ptree_error': ['std::runtime_error'],
}


class _VT:
    """types handled as plain values although they are records."""
    def __contains__(self, t):
        return t.startswith('std::') or t.startswith('google::') or t.startswith('boost::') or t.startswith('nlohmann::') \
            or t.startswith('jogasaki::proto::') or t.startswith('__gnu_cxx::') or t.startswith('tbb::detail')


VALUE_TYPES = _VT()


# ---------------------------------------------------------------------------------------------- type helpers
def split_targs(t):
    """top-level template arguments of a type string."""
    i = t.find('<')
    if i < 0:
        return []
    depth = 0
    out = []
    cur = ''
    par = 0
    for ch in t[i + 1:]:
        if ch == '(':
            par += 1
        elif ch == ')':
            par -= 1
        if ch == '<':
            depth += 1
        elif ch == '>':
            if depth == 0:
                out.append(cur.strip())
                return out
            depth -= 1
        if ch == ',' and depth == 0 and par == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out


def head(t):
    h = t.split('<', 1)[0]
    return 'std::optional' if h == 'boost::optional' else h


STRING = 'std::basic_string'
VIEW = 'std::basic_string_view'
SEQS = {'std::vector', 'std::deque', 'std::list', 'std::array', 'std::queue', 'std::stack', 'std::initializer_list',
        'boost::container::vector', 'boost::container::small_vector', 'std::forward_list'}
MAPS = {'std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap', 'std::multiset',
        'std::unordered_multiset', 'std::unordered_multimap', 'tbb::detail::d2::concurrent_unordered_map',
        'tbb::detail::d2::concurrent_hash_map', 'std::unordered_map'}
SMART = {'std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr', 'std::__uniq_ptr_impl'}
STREAMS = {'std::basic_ostream', 'std::basic_ostringstream', 'std::basic_stringstream', 'std::basic_ios', 'std::ios_base',
           'std::basic_iostream', 'std::basic_istringstream'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator',
         'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator', 'std::reverse_iterator',
         'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::__detail::_Node_iterator_base'}
LOCKS = {'std::lock_guard', 'std::unique_lock', 'std::scoped_lock', 'std::shared_lock'}
MUTEXES = {'std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::__mutex_base'}
CVS = {'std::condition_variable', 'std::_V2::condition_variable_any', 'std::condition_variable_any'}

EMPTY_STREAM = ('st', '$stream', (('$buf', ('str', ())), ('$base', ('i', 10)), ('$w', ('i', 0)), ('$fill', ('i', 32)),
                                  ('$up', ('i', 0)), ('$alpha', ('i', 0)), ('$showbase', ('i', 0))))


def is_stringy(t):
    return head(t) in (STRING, VIEW)


def default_value(eng, st, t):
    from . import models_proto
    if '::proto' in t and models_proto.is_msg(t):
        return models_proto.new(eng.strip(t))
    h = head(t)
    if h in (STRING, VIEW):
        return ('str', ())
    if h == 'std::optional':
        return NULLOPT
    if h in ('std::vector', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'std::initializer_list') or h in MAPS:
        return ('seq', ())
    if h == 'std::array':
        a = split_targs(t)
        try:
            n = int(re.sub('[uUlL]', '', a[1]))
        except (ValueError, IndexError):
            n = None
        z = eng.zero_of(st, a[0]) if a else ZERO
        if n is not None and n <= 256:
            return ('seq', (z,) * n)
        return ('app', 'filled', I(n or 0), z)
    if h in SMART or h == 'std::function':
        return NULL
    if h in STREAMS:
        return EMPTY_STREAM
    if h == 'std::variant':
        alts = split_targs(t)
        a = alts[0]
        return ('alt', a, eng.zero_of(st, a) if a != 'std::monostate' else ('st', 'std::monostate', ()))
    if h == 'std::atomic' or h == 'std::__atomic_base':
        a = split_targs(t)
        r = eng.db.recs.get(eng.strip(a[0])) if a else None
        if r is not None and eng.strip(a[0]) not in VALUE_TYPES:
            return ('st', r['t'], tuple((f['n'], eng.zero_of(st, f['t'])) for f, _ in eng.db.all_fields(r['t'])))
        return eng.zero_of(st, a[0]) if a else ZERO
    if h in ('std::pair', 'std::tuple'):
        a = split_targs(t)
        names = ['first', 'second'] if h == 'std::pair' else [f'get{i}' for i in range(len(a))]
        return ('st', t, tuple((n, eng.zero_of(st, x)) for n, x in zip(names, a)))
    if h == 'std::monostate':
        return ('st', 'std::monostate', ())
    if h in MUTEXES or h in CVS:
        return ('app', 'sync', ('n', h))
    if h == 'std::chrono::time_point' or h == 'std::chrono::duration':
        return ZERO
    if h == 'std::atomic_flag':
        return ZERO
    if h.startswith('jogasaki::proto::') or h.startswith('google::protobuf'):
        return ('st', t, ())
    r = eng.db.recs.get(t)
    if r is not None:
        rs = eng.default_construct(st, None, t)
        return rs[0][1]
    return ('app', 'default', ('n', t))


def moved_from(eng, st, v, t):
    h = head(eng.strip(t or ''))
    if h in SMART:
        return NULL
    if h in ('std::vector', 'std::deque', 'std::queue') or h in MAPS:
        return ('seq', ())
    if h == STRING:
        return ('str', ())
    r = eng.db.recs.get(eng.strip(t or ''))
    if r is not None and v[0] == 'st' and eng.strip(t) not in VALUE_TYPES:
        ts = {f['n']: f['t'] for f, _ in eng.db.all_fields(r['t'])}
        new = tuple((k, moved_from(eng, st, x, ts[k]) if k in ts else None) for k, x in v[2])
        if any(x is not None for _, x in new):
            return ('st', v[1], tuple((k, y if y is not None else x) for (k, x), (_, y) in zip(v[2], new)))
    return None


# ---------------------------------------------------------------------------------------------- string helpers
def substr(eng, st, v, pos, ln):
    """substring term in normal form (pos/len assumed in range)."""
    if ln == ZERO:
        return ('str', ())
    b = const_str(v)
    if b is not None and pos[0] == 'i' and ln[0] == 'i' and pos[1] >= 0 and ln[1] >= 0:
        return lit(b[pos[1]:pos[1] + ln[1]])
    if pos[0] != 'i' and eng is not None and st is not None and eng.byte_blocks and st.facts.proves_ge0(sub(ZERO, pos), eng.ranges) \
            and st.facts.proves_ge0(pos, eng.ranges):
        pos = ZERO
    if pos == ZERO and slen(v) == ln:
        return v
    if pos == ZERO and eng is not None and st is not None and eng.byte_blocks:
        d = sub(ln, slen(v))
        if d[0] != 'i' and st.facts.proves_ge0(d, eng.ranges):
            return v
    if v[0] == 'app' and v[1] == 'substr':
        if pos != ZERO and eng is not None and eng.byte_blocks:
            return substr(eng, st, v[2], add(v[3], pos), ln)
        return ('app', 'substr', v[2], add(v[3], pos), ln)
    if v[0] == 'app' and v[1] == 'filled':
        return ('app', 'filled', ln, v[3])
    if v[0] == 'str':
        # cut at part boundaries when they line up
        at = ZERO
        start = None
        for i, p in enumerate(v[1]):
            if at == pos:
                start = i
            if start is not None and sub(at, pos) == ln:
                return mk_str(v[1][start:i])
            w = I(len(p[1])) if p[0] == 'lit' else I(1) if p[0] == 'chr' else slen(p[1])
            nxt = add(at, w)
            # completely inside this part
            d0, d1 = sub(pos, at), sub(nxt, add(pos, ln))
            if d0[0] == 'i' and d0[1] >= 0 and d1[0] == 'i' and d1[1] >= 0:
                if p[0] == 'lit' and ln[0] == 'i':
                    return lit(p[1][d0[1]:d0[1] + ln[1]])
                if p[0] == 's':
                    return substr(eng, st, p[1], d0, ln)
            at = nxt
        if start is not None and sub(at, pos) == ln:
            return mk_str(v[1][start:])
        r = cut(eng, st, v, pos, ln) if eng is not None and st is not None and eng.byte_blocks else None
        if r is not None:
            return r
    return ('app', 'substr', v, pos, ln)


def cut(eng, st, v, pos, ln):
    """the parts of a text inside a range when the order of all ends follows from what is known."""
    ge = lambda x: x[1] >= 0 if x[0] == 'i' else st.facts.proves_ge0(x, eng.ranges)
    at = ZERO
    end = add(pos, ln)
    r = mk_str(())
    for p in v[1]:
        w = I(len(p[1])) if p[0] == 'lit' else I(1) if p[0] == 'chr' else slen(p[1])
        nxt = add(at, w)
        if ge(sub(pos, nxt)) or ge(sub(at, end)):
            pass
        else:
            lo = ZERO if ge(sub(at, pos)) else sub(pos, at) if ge(sub(pos, at)) else None
            hi = w if ge(sub(end, nxt)) else sub(end, at) if ge(sub(nxt, end)) else None
            if lo is None or hi is None:
                return None
            if lo == ZERO and hi == w:
                r = concat(r, mk_str((p,)))
            elif p[0] == 's':
                r = concat(r, substr(eng, st, p[1], lo, sub(hi, lo)))
            elif p[0] == 'lit' and lo[0] == hi[0] == 'i':
                r = concat(r, lit(p[1][lo[1]:hi[1]]))
            else:
                return None
        at = nxt
    return r


def cstr(eng, st, p):
    """string denoted by a char pointer (up to the first NUL)."""
    if p[0] == 'ptr' and p[1][0] == 'lit':
        return lit(p[1][1].split(b'\0')[0])
    if p[0] == 'ptr' and p[1][0] == 'chr':
        sv, off = p[1][1], p[1][2]
        b = const_str(sv)
        if b is not None and off[0] == 'i':
            return lit(b[off[1]:].split(b'\0')[0])
        return ('app', 'cstr', sv) if off == ZERO else ('app', 'cstr', sv, off)
    if p[0] == 'ptr':
        return ('app', 'cstr', ('ptr', p[1]))
    return ('app', 'cstr', p)


def range_str(eng, st, p, n):
    """string denoted by (char pointer, length)."""
    if p[0] == 'ptr' and p[1][0] == 'chr':
        return substr(eng, st, p[1][1], p[1][2], n)
    if p[0] == 'ptr' and p[1][0] == 'lit':
        return substr(eng, st, lit(p[1][1]), ZERO, n)
    if p[0] == 'ptr' and p[1][0] == 'el':
        c = eng.read(st, p[1][1])
        if eng.char_arrays and n[0] == 'i' and p[1][2][0] == 'i' and n[1] <= 64:
            els = [eng.read(st, ('el', p[1][1], I(p[1][2][1] + i))) for i in range(n[1])]
            return ('str', tuple(('lit', bytes([x[1] & 255])) if x[0] == 'i' else ('chr', x) for x in els))
        if eng.byte_blocks and (c[0] == 'str' or c[0] == 'app' and c[1] in ('substr', 'filled')):
            return substr(eng, st, c, p[1][2], n)
        if c[0] == 'app' and c[1] == 'bytes':
            return substr(eng, st, c[2], p[1][2], n)
        if eng.byte_blocks and (c[0] == 'app' and c[1] == 'param' or p[1][1][0] == 'h' and p[1][1][2] == 'char[]'):
            return substr(eng, st, c, p[1][2], n)
        return substr(eng, st, ('app', 'bytes_of', c), p[1][2], n)
    if p == NULL and eng.byte_blocks and (n == ZERO or n[0] != 'i' and st.facts.proves_ge0(sub(ZERO, n), eng.ranges)):
        return ('str', ())
    return ('app', 'range', p, n)


def arg_str(eng, st, fn, i, v, n=None):
    """string value of argument i."""
    pt = fn['pt'][i] if i < len(fn.get('pt', ())) else ''
    s = eng.strip(pt)
    if is_stringy(s):
        return eng.read(st, v[1], s) if v[0] == 'ptr' else v
    if s in ('char', 'signed char', 'unsigned char'):
        if v[0] == 'ptr' and pt.endswith('&'):
            v = eng.read(st, v[1], s)
        return mk_str((('chr', v),))
    if s.endswith('*'):
        return cstr(eng, st, v)
    if s.startswith('std::initializer_list') and v[0] == 'seq':
        return mk_str(tuple(('chr', x) for x in v[1]))
    nodes = (n or {}).get('a', [])
    if i < len(nodes):
        at = eng.strip(nodes[i].get('t', ''))
        if is_stringy(at):
            return eng.read(st, v[1], at) if v[0] == 'ptr' else v
        if v[0] == 'ptr':
            x = eng.read(st, v[1], at)
            if x[0] == 'str':
                return x
            if eng.tinfo(at).get('k') == 'rec':
                return ('app', 'strof', x)
            if x[0] == 'ptr' or at.endswith('*'):
                return cstr(eng, st, x)
            if at.startswith('char[') or (v[1][0] == 'lit'):
                return cstr(eng, st, v)
    return v


def val(eng, st, fn, i, v, n=None):
    """value of argument i, reading through a reference parameter."""
    pts = fn.get('pt', ())
    pt = pts[i] if i < len(pts) else ''
    nodes = (n or {}).get('a', [])
    isref = pt.endswith('&') or (i < len(nodes) and nodes[i] is not None and nodes[i].get('lv'))
    if isref and v[0] == 'ptr':
        t = eng.strip(pt) if pt.endswith('&') else nodes[i].get('t')
        if v[1][0] == 'lit':
            return v
        return eng.read(st, v[1], t)
    return v


def obligation(eng, st, fr, line, idx, size, what='index'):
    """record the obligation 0 <= idx < size."""
    ok = st.facts.proves_ge0(idx, eng.ranges) and st.facts.proves_ge0(sub(sub(size, idx), I(1)), eng.ranges)
    eng.bounds.append((ok, fr.fn.get('q') if fr else '?', line, idx, size, None if ok else st.facts.copy()))
    return ok


def throw(eng, st, t, line, fr, v=None):
    s = st.copy()
    s.ctrl = ('throw', v or ('app', 'exc', ('n', t)), t, line, fr.fn.get('q') if fr else '?')
    return s


# ---------------------------------------------------------------------------------------------- optional / variant
def engaged(eng, v):
    if v[0] == 'opt':
        return TRUE
    if v[0] == 'nullopt':
        return FALSE
    return ('app', 'engaged', v)


def alts_of(t):
    return split_targs(t)


def alt_index(eng, v, n):
    x = ('app', 'index', v)
    eng.ranges[x] = (0, n - 1)
    return x


def alt_is(eng, v, alts, i):
    """condition: variant value v holds alternative i."""
    if v[0] == 'alt':
        return TRUE if v[1] == alts[i] or v[1] == i else FALSE
    if len(alts) == 1:
        return TRUE
    return eng.cmp('==', alt_index(eng, v, len(alts)), I(i))


# ---------------------------------------------------------------------------------------------- construction
def to_string_value(eng, st, fn, vs, nodes, n):
    """value of a std::string / string_view constructor."""
    pts = fn.get('pt', [])
    k = [eng.strip(p) for p in pts]
    if not vs:
        return [(st, ('str', ()))]
    # iterator pair
    if len(vs) >= 2 and len(k) >= 2 and k[0] == k[1] and vs[0][0] == 'ptr' and vs[1][0] == 'ptr':
        a, b = vs[0][1], vs[1][1]
        a, b = it_loc(eng, st, a), it_loc(eng, st, b)
        if a[0] == b[0] and a[0] in ('chr', 'el') and a[1] == b[1]:
            return [(st, range_str(eng, st, ('ptr', a), sub(b[2], a[2])))]
        return [(st, ('app', 'range2', vs[0], vs[1]))]
    if k and is_stringy(k[0]):
        s = vs[0] if vs[0][0] != 'ptr' else eng.read(st, vs[0][1], k[0])
        if len(vs) >= 2 and len(k) >= 2 and k[1] == 'unsigned long':
            pos = vs[1]
            ln = vs[2] if len(vs) > 2 and eng.intlike(vs[2]) else sub(slen(s), pos)
            return [(st, substr(eng, st, s, pos, ln))]
        return [(st, s)]
    if len(vs) >= 2 and k[0].endswith('*') and eng.tinfo(k[1]).get('k') == 'int':
        return [(st, range_str(eng, st, vs[0], vs[1]))]
    if len(vs) >= 2 and k[0] == 'unsigned long' and k[1] in ('char',):
        if vs[0][0] == 'i' and vs[0][1] <= 4096:
            return [(st, mk_str((('chr', vs[1]),) * vs[0][1]))]
        return [(st, ('app', 'filled', vs[0], vs[1]))]
    if k[0].endswith('*') or (nodes and eng.tinfo(nodes[0].get('t')).get('k') in ('ptr', 'arr')):
        return [(st, cstr(eng, st, vs[0]))]
    if k[0].startswith('std::initializer_list') and vs[0][0] == 'seq':
        return [(st, mk_str(tuple(('chr', x) for x in vs[0][1])))]
    # converting constructor from a type convertible to string_view
    if vs[0][0] == 'ptr':
        v = eng.read(st, vs[0][1], eng.strip(nodes[0].get('t', '')) if nodes else None)
    else:
        v = vs[0]
    nt = eng.strip(nodes[0].get('t', '')) if nodes else ''
    if is_stringy(nt):
        return [(st, v)]
    return [(st, conv_string(eng, st, v, nt, vs[0]))]


def conv_string(eng, st, v, t, raw):
    """conversion of a repository value to a string through its conversion operator."""
    for f in eng.db.fns.values():
        if f.get('clst') == t and 'operator basic_string_view' in f['q']:
            loc = raw[1] if raw[0] == 'ptr' else eng.temp(st, raw)
            rs = eng.invoke(f, st, loc, [], {'l': 0}, None)
            if len(rs) == 1:
                return rs[0][1]
    return v if v[0] == 'str' else ('app', 'strof', v)


def find_ctor(eng, t, vs, sts):
    """user constructors of record t that fit the argument count: the best one."""
    c = [f for f in eng.db.fns.values() if f.get('ctor') and f.get('clst') == t and not f.get('dep')]
    def arity_ok(f):
        ps = f['params']
        need = len([p for p in ps if p.get('def') is None])
        return need <= len(vs) <= len(ps)
    c = [f for f in c if arity_ok(f)]
    if len(c) <= 1:
        return c[0] if c else None
    def score(f):
        s = 0
        for p, v, at in zip(f['params'], vs, sts):
            pt = eng.strip(p['t'])
            if at and eng.strip(at) == pt:
                s += 3
            elif at and is_stringy(eng.strip(at)) and is_stringy(pt):
                s += 2
            elif eng.tinfo(pt).get('k') == eng.tinfo(eng.strip(at or '')).get('k'):
                s += 1
        return s
    c.sort(key=score, reverse=True)
    return c[0]


def build(eng, st, fr, t, vs, types, n):
    """construct a value of type t from evaluated arguments (emplace, make_unique...): [(st, v)]"""
    t = eng.strip(t)
    ti = eng.tinfo(t)
    def rd(i):
        v = vs[i]
        if v[0] == 'ptr' and types[i] is not None and v[1][0] != 'lit' and types[i].endswith('&'):
            return eng.read(st, v[1], eng.strip(types[i]))
        return v
    if ti.get('k') in ('int', 'bool', 'enum', 'float', 'ptr'):
        if not vs:
            return [(st, eng.zero_of(st, t))]
        v = rd(0)
        if ti.get('k') in ('int', 'bool') and types[0]:
            v = eng.convert(st, v, eng.strip(types[0]), t)
        return [(st, v)]
    if len(vs) == 1 and types[0] is not None and eng.strip(types[0]) == t:
        v = rd(0)
        if types[0].endswith('&&') and vs[0][0] == 'ptr':
            eng.move_out(st, vs[0][1], v, t)
        return [(st, v)]
    if is_stringy(t):
        fn = {'pt': [x or '' for x in types], 'q': '', 'key': ''}
        return to_string_value(eng, st, fn, [v for v in vs], [{'t': eng.strip(x or ''), 'lv': 1} for x in types], n)
    if head(t) == 'std::optional':
        if not vs:
            return [(st, NULLOPT)]
        if vs[0] == NULLOPT or (types[0] and 'nullopt' in types[0]):
            return [(st, NULLOPT)]
        return [(s, ('opt', v)) for s, v in build(eng, st, fr, split_targs(t)[0], vs, types, n)]
    if head(t) == 'std::variant':
        return variant_from(eng, st, fr, t, vs, types, n)
    if head(t) in SMART:
        return [(st, rd(0) if vs else NULL)]
    if head(t) == 'std::pair' and len(vs) == 2:
        a = split_targs(t)
        out = []
        for s, x in [(st, vs[0])] if a[0].endswith('&') else build(eng, st, fr, a[0], [vs[0]], [types[0]], n):
            for s2, y in [(s, vs[1])] if a[1].endswith('&') else build(eng, s, fr, a[1], [vs[1]], [types[1]], n):
                out.append((s2, ('st', t, (('first', x), ('second', y)))))
        return out
    if head(t) == 'std::tuple' and vs and len(vs) == len(split_targs(t)):
        out = [(st, [])]
        for a, v, vt in zip(split_targs(t), vs, types):
            out = [(s2, xs + [x]) for s, xs in out for s2, x in ([(s, v)] if a.endswith('&') else build(eng, s, fr, a, [v], [vt], n))]
        return [(s, ('st', t, tuple((f'get{i}', x) for i, x in enumerate(xs)))) for s, xs in out]
    if not vs:
        f = find_ctor(eng, t, vs, types)
        if f is None or f.get('defaulted'):
            return [(st, default_value(eng, st, t))]
    r = eng.db.recs.get(t)
    if r is not None:
        f = find_ctor(eng, t, vs, types)
        if f is not None and not f.get('defaulted'):
            eng.n += 1
            loc = ('t', eng.n)
            av = []
            for i, p in enumerate(f['params'][:len(vs)]):
                v = vs[i]
                if not p['t'].endswith('&'):
                    v = rd(i)
                    if v[0] == 'ptr' and v[1][0] == 'lit' and is_stringy(eng.strip(p['t'])):
                        v = cstr(eng, st, v)
                    if head(eng.strip(p['t'])) == 'std::optional' and v[0] not in ('opt', 'nullopt') and \
                            not (types[i] and head(eng.strip(types[i])) == 'std::optional'):
                        v = ('opt', v)
                    if v[0] == 'ptr' and head(eng.strip(p['t'])) in SMART:
                        if (types[i] or '').endswith('&&') and vs[i][0] == 'ptr':
                            eng.move_out(st, vs[i][1], v, eng.strip(p['t']))
                        v = ('ptr', eng.temp(st, v))
                elif v[0] != 'ptr':
                    v = ('ptr', eng.temp(st, v))
                av.append(v)
            out = []
            for s2, _ in eng.invoke(f, st, loc, av, n, fr, ctor_type=t):
                if s2.ctrl is not None:
                    out.append((s2, ZERO))
                    continue
                v = eng.read(s2, loc, t)
                out.append((s2, v))
            return out
        fs = eng.db.all_fields(t)
        if len(vs) <= len(fs):
            return [(st, ('st', t, tuple((f['n'], rd(i)) for i, (f, _) in enumerate(fs[:len(vs)]))))]
    return [(st, ('app', 'new:' + t, *[rd(i) for i in range(len(vs))]))]


def variant_from(eng, st, fr, t, vs, types, n, want=None):
    alts = split_targs(t)
    if not vs:
        return [(st, default_value(eng, st, t))]
    at = eng.strip(types[0] or '')
    if at == t:
        v = vs[0]
        if v[0] == 'ptr':
            v = eng.read(st, v[1], t)
        return [(st, v)]
    if at in alts:
        v = vs[0]
        if v[0] == 'ptr' and (types[0].endswith('&') or eng.tinfo(at).get('k') != 'ptr'):
            v = eng.read(st, v[1], at)
        return [(st, ('alt', at, v))]
    # converting: the unique viable alternative
    ka = eng.tinfo(at).get('k')
    c = []
    for a in alts:
        kb = eng.tinfo(a).get('k')
        if is_stringy(a) and (is_stringy(at) or at.endswith('*') or at.startswith('char[') or at.startswith('const char')):
            c.append(a)
        elif ka in ('int', 'enum') and kb == 'int':
            c.append(a)
        elif ka == 'float' and kb == 'float':
            c.append(a)
    if len(c) == 1:
        return [(s, ('alt', c[0], v)) for s, v in build(eng, st, fr, c[0], vs, types, n)]
    return [(st, ('app', 'variant', *vs))]


def arg_types(fn, nodes, vs):
    """static type of each argument, with '&'/'&&' when handed over by reference."""
    out = []
    for i in range(len(vs)):
        nd = nodes[i] if i < len(nodes) else None
        if nd is None:
            out.append(None)
            continue
        t = nd.get('t', '')
        lv = nd.get('lv')
        if nd.get('k') == 'mat':
            out.append(t + ' &&')
        elif lv == 2:
            out.append(t + ' &&')
        elif lv:
            out.append(t + ' &')
        else:
            out.append(t)
    return out


def construct(eng, st, fr, n, fn, t, vs, nodes):
    h = head(t)
    if h in (STRING, VIEW):
        return to_string_value(eng, st, fn, vs, nodes, n)
    at = arg_types(fn, nodes, vs)
    if h == 'std::optional':
        if not vs or (at[0] and 'nullopt' in at[0]):
            return [(st, NULLOPT)]
        inner = split_targs(t)[0]
        a0 = eng.strip((at[0] or '').rstrip('&'))
        if head(a0) == 'std::optional' and inner != a0:
            v = val(eng, st, fn, 0, vs[0], n)
            if v[0] == 'opt':
                return [(s, ('opt', x)) for s, x in build(eng, st, fr, inner, [v[1]], [split_targs(a0)[0]], n)]
            return [(st, v)]
        if 'in_place' in (at[0] or ''):
            return [(s, ('opt', v)) for s, v in build(eng, st, fr, inner, vs[1:], at[1:], n)]
        return [(s, ('opt', v) if s.ctrl is None else ZERO) for s, v in build(eng, st, fr, inner, vs, at, n)]
    if h == 'std::variant':
        if vs and 'in_place_type_t' in (at[0] or ''):
            a = split_targs(eng.strip(at[0].rstrip('&')))[0]
            return [(s, ('alt', a, v)) for s, v in build(eng, st, fr, a, vs[1:], at[1:], n)]
        if vs and 'in_place_index_t' in (at[0] or ''):
            i, alts = int(re.sub('[uUlL]', '', split_targs(eng.strip(at[0].rstrip('&')))[0])), split_targs(t)
            a = alts[i]
            return [(s, ('alt', a if alts.count(a) == 1 else i, v)) for s, v in build(eng, st, fr, a, vs[1:], at[1:], n)]
        return variant_from(eng, st, fr, t, vs, at, n)
    if h in SMART:
        if not vs:
            return [(st, NULL)]
        v = vs[0]
        if v[0] == 'ptr' and nodes and nodes[0].get('lv') and head(eng.strip(nodes[0]['t'])) in SMART:
            loc = v[1]
            v = eng.read(st, loc, nodes[0]['t'])
            if head(eng.strip(nodes[0]['t'])) == 'std::unique_ptr' or fn.get('pt', [''])[0].endswith('&&'):
                eng.write(st, loc, NULL, 0, log=False)
        elif v[0] == 'ptr' and fn.get('pt', [''])[0].endswith('&') and nodes and nodes[0].get('lv'):
            v = eng.read(st, v[1], nodes[0]['t'])
        return [(st, v)]
    if h in LOCKS:
        return lock_ctor(eng, st, fr, n, vs, nodes, h)
    if h in ('std::vector', 'std::deque', 'std::list'):
        if not vs:
            return [(st, ('seq', ()))]
        a0 = eng.strip((at[0] or '').rstrip('&'))
        if a0.startswith('std::initializer_list') or a0.rstrip('& ').endswith(']'):
            return [(st, val(eng, st, fn, 0, vs[0], n))]
        if a0 == t:
            return [(st, val(eng, st, fn, 0, vs[0], n))]
        if head(a0).startswith('std::allocator') or 'polymorphic_allocator' in a0:
            return [(st, ('seq', ()))]
        k0 = eng.tinfo(a0).get('k')
        if k0 == 'int':
            et = split_targs(t)[0]
            if len(vs) > 1 and not (at[1] or '').startswith('std::allocator') and 'allocator' not in (at[1] or ''):
                x = val(eng, st, fn, 1, vs[1], n)
            else:
                x = eng.zero_of(st, et)
            if vs[0][0] == 'i' and vs[0][1] <= 256:
                return [(st, ('seq', (x,) * vs[0][1]))]
            return [(st, ('app', 'filled', vs[0], x))]
        if len(vs) >= 2 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr':
            a, b = it_loc(eng, st, vs[0][1]), it_loc(eng, st, vs[1][1])
            if a[0] == b[0] == 'el' and a[1] == b[1]:
                c = eng.read(st, a[1])
                if a[2] == ZERO and b[2] == eng.csize(c):
                    return [(st, c)]
                return [(st, ('app', 'slice', c, a[2], b[2]))]
        return [(st, ('app', 'new:' + h, *[val(eng, st, fn, i, v, n) for i, v in enumerate(vs)]))]
    if h in MAPS:
        if vs and ((at[0] or '').startswith('std::initializer_list') or (at[0] or '').rstrip('& ').endswith(']')):
            v = val(eng, st, fn, 0, vs[0], n)
            if v[0] == 'seq':
                m = ('seq', ())
                for x in v[1]:
                    if 'map' in h:
                        m = mput(m, eng.proj(st, x, 'first', None), eng.proj(st, x, 'second', None))
                    else:
                        m = mput(m, x, TRUE)
                return [(st, m)]
            return [(st, v)]
        if vs and len(vs) >= 2 and vs[0][0] == 'ptr' and vs[1][0] == 'ptr':
            a, b = it_loc(eng, st, vs[0][1]), it_loc(eng, st, vs[1][1])
            if a[0] == b[0] == 'el' and a[1] == b[1]:
                c = eng.read(st, a[1])
                if c[0] == 'seq':
                    m = ('seq', ())
                    for x in c[1]:
                        m = mput(m, x, TRUE)
                    return [(st, m)]
                return [(st, ('app', 'setof', c))]
        return [(st, ('seq', ()))]
    if h in ('std::pair', 'std::tuple'):
        a = split_targs(t)
        names = ['first', 'second'] if h == 'std::pair' else [f'get{i}' for i in range(len(a))]
        if len(vs) == len(a):
            out = [(st, [])]
            for i in range(len(a)):
                nxt = []
                for s, xs in out:
                    if a[i].endswith('&'):
                        nxt.append((s, xs + [vs[i]]))
                        continue
                    for s2, x in build(eng, s, fr, a[i], [vs[i]], [at[i]], n):
                        nxt.append((s2, xs + [x]))
                out = nxt
            return [(s, ('st', t, tuple(zip(names, xs)))) for s, xs in out]
        if len(vs) == 1:
            return [(st, val(eng, st, fn, 0, vs[0], n))]
        return [(st, default_value(eng, st, t))]
    if h in STREAMS:
        if vs and is_stringy(eng.strip((at[0] or '').rstrip('&'))):
            s = val(eng, st, fn, 0, vs[0], n)
            return [(st, ('st', '$stream', (('$buf', s),) + EMPTY_STREAM[2][1:]))]
        return [(st, EMPTY_STREAM)]
    if h == 'std::array':
        return [(st, default_value(eng, st, t) if not vs else val(eng, st, fn, 0, vs[0], n))]
    if h == 'std::function':
        if not vs:
            return [(st, NULL)]
        return [(st, val(eng, st, fn, 0, vs[0], n))]
    if h == 'std::atomic':
        return [(st, vs[0] if vs else default_value(eng, st, t))]
    if h in MUTEXES or h in CVS:
        return [(st, ('app', 'sync', ('n', h)))]
    if h == 'std::nullopt_t':
        return [(st, NULLOPT)]
    if h in ITERS:
        return [(st, val(eng, st, fn, 0, vs[0], n) if vs else ('app', 'iter0'))]
    if h in STD_EXC_BASES or h == 'std::exception':
        a = [arg_str(eng, st, fn, i, v, n) for i, v in enumerate(vs[:1])]
        return [(st, ('app', 'exc', ('n', h), *a))]
    if h == 'std::chrono::duration' and vs:
        v = val(eng, st, fn, 0, vs[0], n)
        a0 = eng.strip((at[0] or '').rstrip('&'))
        if head(a0) == 'std::chrono::duration' and a0 != t:
            return [(st, dur_cast(eng, st, v, a0, t))]
        rep = (split_targs(t) or [''])[0]
        if v[0] in ('i', 'bvec', 'btab') or v[0] == 'app' and v[1] == 'trunc':
            v = eng.convert(st, v, a0, rep) if a0 else v
        return [(st, v)]
    if h == 'nlohmann::detail::json_ref' and len(vs) == 1:
        v = vs[0]
        a0 = eng.strip((at[0] or '').rstrip('&'))
        if a0.endswith('*') or a0.startswith('char['):
            return [(st, cstr(eng, st, v))]
        return [(st, eng.read(st, v[1], a0) if v[0] == 'ptr' else v)]
    if h == 'nlohmann::basic_json':
        if not vs or vs[0] == NULL:
            return [(st, ('seq', ()))]
        v = vs[0]
        a0 = eng.strip((at[0] or '').rstrip('&'))
        if len(vs) == 3 and v[0] == 'ptr':
            v = eng.read(st, v[1])
        if v[0] == 'seq':
            if v[1] and all(x[0] == 'seq' and len(x[1]) == 2 and x[1][0][0] == 'str' for x in v[1]):
                m = ('seq', ())
                for x in v[1]:
                    m = mput(m, x[1][0], x[1][1])
                return [(st, m)]
            return [(st, v)]
        if a0.endswith('*') or a0.startswith('char['):
            return [(st, cstr(eng, st, v))]
        return [(st, eng.read(st, v[1], a0) if v[0] == 'ptr' else v)]
    if h == 'std::chrono::time_point':
        if not vs:
            return [(st, ZERO)]
        v = val(eng, st, fn, 0, vs[0], n)
        a0 = eng.strip((at[0] or '').rstrip('&'))
        return [(st, dur_cast(eng, st, v, tp_dur(a0), tp_dur(t)))]
    if h.startswith('jogasaki::proto::'):
        if not vs or vs[0] == NULL:
            return [(st, ('st', t, ()))]
        return [(st, val(eng, st, fn, 0, vs[0], n))]
    if h.startswith('std::allocator') or 'memory_order' in h:
        return [(st, ('app', 'alloc'))]
    if h == 'std::monostate':
        return [(st, ('st', t, ()))]
    rec = eng.db.recs.get(t)
    a = [val(eng, st, fn, i, v, n) for i, v in enumerate(vs)]
    if not vs and rec is None:
        return [(st, default_value(eng, st, t))]
    eng.unknown['ctor ' + h] = eng.unknown.get('ctor ' + h, 0) + 1
    st.ev('ctor', fn['q'], tuple(a), n.get('l'))
    return [(st, ('app', 'new:' + t, *a))]


def ratio(t):
    a = split_targs(t)
    if len(a) > 1:
        r = split_targs(a[1])
        try:
            return int(re.sub('[uUlL]', '', r[0])), int(re.sub('[uUlL]', '', r[1])) if len(r) > 1 else 1
        except (ValueError, IndexError):
            return None
    return 1, 1


def tp_dur(t):
    """the duration type a time point counts in (a duration: itself)."""
    if head(t) == 'std::chrono::time_point':
        a = split_targs(t)
        return a[1] if len(a) > 1 else 'std::chrono::duration<long, std::ratio<1, 1000000000>>'
    return t


def dur_cast(eng, st, v, f, t):
    rf, rt = ratio(f), ratio(t)
    if rf is None or rt is None:
        return ('app', 'dcast', v, ('n', t))
    num, den = rf[0] * rt[1], rf[1] * rt[0]
    if num % den == 0:
        return scale(v, num // den)
    if v[0] == 'i' and (v[1] * num) % den == 0:
        return I(v[1] * num // den)
    x = ('app', '/', scale(v, num), I(den))
    eng.ranges.setdefault(x, (None, None))
    return x


# ---------------------------------------------------------------------------------------------- maps
def mput(m, k, v):
    if m[0] == 'app' and m[1] == 'mput' and m[3] == k:
        m = m[2]
    return ('app', 'mput', m, k, v)


def mhas(eng, m, k, st=None):
    if m[0] == 'seq' and not m[1]:
        return FALSE
    if m[0] == 'app' and m[1] in ('mput', 'merase'):
        r = samekey(eng, m[3], k, st)
        if r is True:
            return I(m[1] == 'mput')
        if r is False:
            return mhas(eng, m[2], k, st)
    return ('app', 'has', m, k)


def distinct(eng, a, b):
    return samekey(eng, a, b, None) is False


def samekey(eng, a, b, st):
    """are two keys the same: True/False, or None when unknown."""
    if a == b:
        return True
    if a[0] == 'i' and b[0] == 'i':
        return a[1] == b[1]
    ca, cb = const_str(a), const_str(b)
    if ca is not None and cb is not None:
        return ca == cb
    if eng.intlike(a) and eng.intlike(b):
        d = sub(a, b)
        if d[0] == 'i':
            return d[1] == 0
    return eng.truth(st, key_eq(eng, st, a, b)) if st is not None else None


def key_eq(eng, st, a, b):
    if st is not None and 'str' in (a[0], b[0]):
        from . import models_call
        return models_call.str_eq(eng, st, a, b)
    return eng.cmp('==', a, b)


def own_equality(eng, a, b):
    """the comparison the analysed code has for two records of one type."""
    if a[0] != 'st' or b[0] != 'st' or a[1] != b[1] or not a[1].startswith('jogasaki::'):
        return None
    key = ('own==', a[1])
    if key not in eng.gcache:
        eng.gcache[key] = next((f for f in eng.db.fns.values() if f['q'].endswith('::operator==') and f.get('body') and len(f['params']) == 2
                                and all(p['t'].endswith('&') and eng.strip(p['t']) == eng.strip(a[1]) for p in f['params'])), None)
    return eng.gcache[key]


def keycases(eng, st, m, k, depth=6):
    """states in which it is known which of the recorded keys k is."""
    while m[0] == 'app' and m[1] in ('mput', 'merase') and depth:
        if samekey(eng, m[3], k, st) is None:
            own = own_equality(eng, m[3], k)
            if own is not None:
                # what the type itself takes for equal
                out = []
                for s, v in eng.invoke(own, st, None, [('ptr', eng.temp(st, m[3])), ('ptr', eng.temp(st, k))], {'l': 0}, None):
                    for s2, t in eng.branch(s, v):
                        for s3, t3 in eng.branch(s2, key_eq(eng, s2, m[3], k)):
                            if t == t3:
                                out += keycases(eng, s3, m, k, depth - 1)
                return out
            return [x for s, _ in eng.branch(st, key_eq(eng, st, m[3], k)) for x in keycases(eng, s, m, k, depth - 1)]
        m = m[2]
    return [st]


def mget(eng, m, k, st=None):
    if m[0] == 'app' and m[1] in ('mput', 'merase'):
        r = samekey(eng, m[3], k, st)
        if r is True and m[1] == 'mput':
            return m[4]
        if r is False:
            return mget(eng, m[2], k, st)
    return ('app', 'mget', m, k)


def merase(eng, st, m, k):
    """a map without a key: what is left, when all entries are known."""
    es = entries(eng, st, m)
    if es is not None:
        same = [samekey(eng, x, k, st) for x, _ in es]
        if None not in same:
            r = ('seq', ())
            for (x, v), gone in zip(es, same):
                r = r if gone else mput(r, x, v)
            return r
    return ('app', 'merase', m, k)


def entries(eng, st, m):
    """[(key, value)] of a map all of whose entries are known, else None."""
    out, gone = [], []
    while m[0] == 'app' and m[1] in ('mput', 'merase'):
        rs = [samekey(eng, k, m[3], st) for k in gone]
        if None in rs:
            return None
        if True not in rs:
            gone.append(m[3])
            if m[1] == 'mput':
                out.append((m[3], m[4]))
        m = m[2]
    return out[::-1] if m == ('seq', ()) else None


def in_order(eng, st, t, ents):
    """[(state, entries)] in the order an ordered container of type t visits them (the default order of numbers and known texts)."""
    h, a = head(t), split_targs(t)
    if h not in ('std::map', 'std::set', 'std::multimap', 'std::multiset') or len(ents) < 2:
        return [(st, ents)]
    n = 2 if 'map' in h else 1
    if len(a) > n and not a[n].startswith('std::less<'):
        return [(st, ents)]
    txt = [const_str(k) for k, _ in ents]
    if None not in txt:
        return [(st, [x for _, x in sorted(zip(txt, ents), key=lambda z: z[0])])]
    if not all(eng.intlike(k) for k, _ in ents) or len(ents) > 5:
        return [(st, ents)]
    work = [(st, [])]
    for x in ents:
        nxt = []
        for s, l in work:
            states = [s]
            for i, y in enumerate(l):
                rest = []
                for s1 in states:
                    for s2, less in eng.branch(s1, eng.cmp('<', x[0], y[0])):
                        if less:
                            nxt.append((s2, l[:i] + [x] + l[i:]))
                        else:
                            rest.append(s2)
                states = rest
            nxt += [(s1, l + [x]) for s1 in states]
        work = nxt
    return work


def it_loc(eng, st, loc):
    """iterator/pointer location."""
    return loc


# ---------------------------------------------------------------------------------------------- locks
def owner_type(eng, st, fr, owner):
    t = st.cls.get(owner)
    if t:
        return t
    f = fr
    while f is not None:
        if f.this == owner and f.clst:
            return f.clst
        f = f.parent
    if fr is not None and fr.this == owner:
        return fr.clst
    return None


def havoc_owner(eng, st, fr, mloc, why):
    """another thread may have changed what the mutex protects."""
    if mloc[0] != 'fl':
        return None
    owner = mloc[1]
    if eng.root(owner)[0] not in ('d', 'g'):
        return None
    t = owner_type(eng, st, fr, owner)
    if t is None:
        return None
    eng.n += 1
    tag = eng.n
    for f, _ in eng.db.all_fields(t):
        ft = eng.strip(f['t'])
        if f.get('const') or f['t'].startswith('const ') or head(ft) in MUTEXES or head(ft) in CVS or f['t'].endswith('&'):
            continue
        l = ('fl', owner, f['n'])
        for x in [x for x in st.mem if eng.is_under(x, l)]:
            del st.mem[x]
        st.mem[l] = eng.opaque_value(('app', 'lk', ('i', tag), l), f['t'])
    return tag


def acquire(eng, st, fr, mloc, line, shared=False):
    first = not any(e[0] == 'lock' and e[1] == mloc for e in st.eff)
    if mloc in st.locks:
        st.ev('relock', mloc, line)
    tag = None
    if first and mloc[0] == 'fl' and any(e[0] == 'rd' and eng.is_under(e[1], mloc[1]) and mloc not in (e[-1] or ()) for e in st.eff):
        first = False       # looked at before the lock was held: it may have changed since
    if not first:
        tag = havoc_owner(eng, st, fr, mloc, 'lock')
    st.locks = st.locks + (mloc,)
    st.ev('lock', mloc, line, tag)


def release(eng, st, mloc, line):
    if mloc in st.locks:
        l = list(st.locks)
        l.reverse()
        l.remove(mloc)
        l.reverse()
        st.locks = tuple(l)
        st.ev('unlock', mloc, line)


def lock_ctor(eng, st, fr, n, vs, nodes, h):
    st = st.copy()
    locs = []
    defer = adopt = False
    for v, nd in zip(vs, nodes):
        t = eng.strip(nd.get('t', ''))
        if 'defer_lock' in t:
            defer = True
        elif 'adopt_lock' in t or 'try_to_lock' in t:
            adopt = True
        elif head(t) in MUTEXES or v[0] == 'ptr' and head(t).endswith('mutex'):
            locs.append(eng.as_loc(v))
    if not defer and not adopt:
        for l in locs:
            acquire(eng, st, fr, l, n.get('l'))
    return [(st, ('app', 'lockobj', FALSE if defer else TRUE, *[('ptr', l) for l in locs]))]


def deleter(eng, t):
    """the call operator a unique_ptr of type t deletes with, when it is not the default one."""
    a = split_targs(t)
    if len(a) < 2 or a[1].startswith('std::default_delete'):
        return None
    fs = [f for f in eng.db.byq.get(a[1].strip() + '::operator()', ()) if f.get('body') is not None]
    return fs[0] if fs else None


def delete_by(eng, st, fr, f, v, loc, line):
    """unique_ptr deletes what it holds unless that is null."""
    return [s2 for s, null in eng.branch(st, eng.cmp('==', v, NULL)) for s2 in ([s] if null else [x for x, _ in eng.invoke(f, s, loc, [v], {'l': line}, fr)])]


def destroy(eng, st, fr, loc, t, line):
    h = head(t)
    if h in LOCKS:
        v = st.mem.get(loc)
        st = st.copy()
        if v is not None and v[0] == 'app' and v[1] == 'lockobj' and v[2] == TRUE:
            for p in reversed(v[3:]):
                release(eng, st, p[1], line)
        st.mem.pop(loc, None)
        return [st]
    if h == 'std::unique_ptr':
        v = st.mem.get(loc)
        if v is None and loc[0] in ('fl', 'el'):
            v = eng.read(st, loc, t)
        f = deleter(eng, t)
        if f is not None and v is not None:
            ctrl, ret = st.ctrl, st.ret
            s0 = st.copy()
            s0.ctrl = None
            out = delete_by(eng, s0, fr, f, v, loc, line)
            for s in out:
                if s.ctrl is None:
                    s.ctrl, s.ret = ctrl, ret
            return out
        if v is not None and v[0] == 'ptr' and v[1][0] == 'h':
            pt = split_targs(t)[0]
            ctrl, ret = st.ctrl, st.ret
            dt = v[1][2] if len(v[1]) > 2 else pt
            s0 = st.copy()
            s0.ctrl = None
            out = eng.destroy(s0, fr, v[1], dt, line)
            for s in out:
                if s.ctrl is None:
                    s.ctrl, s.ret = ctrl, ret
            return out
        return [st]
    if h in ('std::vector', 'std::deque', 'std::list', 'std::optional', 'std::array') and ends(eng, t):
        v = eng.read(st, loc, t)
        a = split_targs(t)
        if v == NULLOPT:
            return [st]
        at = [('el', loc, I(i)) for i in range(len(v[1]))] if v[0] == 'seq' else [('fl', loc, '*')] if v[0] == 'opt' else None
        if at is None:
            eng.unknown['destruction of ' + h] = eng.unknown.get('destruction of ' + h, 0) + 1
            return [st]
        return ended(eng, st, fr, [(x, a[0]) for x in at], line)
    if t.startswith('std::'):
        return [st]
    return None


def ended(eng, st, fr, places, line):
    """the objects at the places [(place, type)] end, one after the other."""
    ctrl, ret = st.ctrl, st.ret
    s0 = st.copy()
    s0.ctrl = None
    work, out = [s0], []
    for x, t in places:
        nxt = []
        for s in work:
            for s2 in eng.destroy(s, fr, x, eng.strip(t), line):
                (nxt if s2.ctrl is None else out).append(s2)
        work = nxt
    for s in work:
        s.ctrl, s.ret = ctrl, ret
    return out + work


def reallocated(eng, st, fr, base, cv, et, line):
    """states after a vector has made room for one more element: the old elements are moved and end, unless there was room."""
    if cv[0] != 'seq' or not ends(eng, et):
        return [st]
    n = len(cv[1])
    if n == 0 or n & (n - 1):
        return [st]
    for x in reversed(st.eff):
        if x[0] == 'reserve' and x[1] == base:
            if st.facts.proves_ge0(sub(x[2], I(n + 1)), eng.ranges):
                return [st]
    rec = eng.db.recs.get(eng.strip(et))
    if rec is None or any(m.get('ctor') and m.get('sp') in ('copy', 'move') and not m.get('defaulted') for m in rec['methods']):
        return [st]
    st = st.copy()
    old = []
    for v in cv[1]:
        m = moved_from(eng, st, v, et)
        old.append((eng.temp(st, v if m is None else m), et))
    return ended(eng, st, fr, old, line)


def ends(eng, t):
    """whether the end of an object of the type does anything."""
    t = eng.strip(t)
    if t in eng.does_end:
        return eng.does_end[t]
    eng.does_end[t] = False
    h = head(t)
    a = split_targs(t)
    if h in LOCKS:
        r = True
    elif h == 'std::unique_ptr':
        r = deleter(eng, t) is not None or bool(a) and ends(eng, a[0])
    elif h in ('std::vector', 'std::deque', 'std::list', 'std::optional', 'std::array'):
        r = bool(a) and ends(eng, a[0])
    else:
        rec = eng.db.recs.get(t) if t not in VALUE_TYPES else None
        r = rec is not None and (any(m.get('dtor') and not m.get('defaulted') for m in rec['methods']) or any(ends(eng, f['t']) for f, _ in eng.db.all_fields(t)))
    eng.does_end[t] = r
    return r


def bitcast(eng, st, v, n):
    return v


def dyncast(eng, st, v, n):
    if v[0] == 'null':
        return [(st, v)]
    tgt = n['t']
    isptr = eng.tinfo(tgt).get('k') == 'ptr'
    p = eng.strip(tgt[:-1].strip()) if tgt.endswith('*') else eng.strip(tgt)
    if v[0] == 'ptr':
        dyn = st.cls.get(v[1]) or (v[1][2] if v[1][0] == 'h' and len(v[1]) > 2 else None)
        if dyn is None:
            x = st.mem.get(v[1])
            if x is not None and x[0] == 'st':
                dyn = x[1]
        if dyn is not None:
            ok = derives(eng, dyn, p)
            if ok:
                return [(st, v)]
            return [(st, NULL)] if isptr else [(throw(eng, st, 'std::bad_cast', n.get('l'), None), ZERO)]
    c = ('app', 'truthy', ('app', 'isa', v, ('n', p)))
    out = []
    for s, t in eng.branch(st, c):
        if t:
            out.append((s, v))
        elif isptr:
            out.append((s, NULL))
        else:
            out.append((throw(eng, s, 'std::bad_cast', n.get('l'), None), ZERO))
    return out


def derives(eng, t, base):
    todo = [t]
    while todo:
        x = todo.pop()
        if x == base:
            return True
        r = eng.db.recs.get(x)
        if r:
            todo += r['bases']
    return False


from .models_call import call, opaque_call, same_text  # noqa: E402,F401
