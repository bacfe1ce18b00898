"""Protocol buffer messages: generated accessors as reads and writes of message fields."""
import os
import re
from .terms import *
from . import db as dbm

_T = None
SCALARS = {'string', 'bytes', 'bool', 'double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64'}


def tables():
    """C++ class -> {'f': {field: (number, type, label, oneof)}, 'o': {oneof: [fields]}} parsed from the .proto files."""
    global _T
    if _T is not None:
        return _T
    _T = {}
    paths = []
    for base, _, files in os.walk(os.path.join(dbm.REPO, 'src')):
        paths += [os.path.join(base, f) for f in files if f.endswith('.proto')]
    if os.path.exists('/usr/include/google/protobuf/descriptor.proto'):
        paths.append('/usr/include/google/protobuf/descriptor.proto')
    for p in sorted(paths):
        parse(open(p).read(), _T)
    return _T


def parse(src, out):
    src = re.sub(r'/\*.*?\*/', ' ', src, flags=re.S)
    src = re.sub(r'//[^\n]*', ' ', src)
    toks = re.findall(r'"(?:[^"\\]|\\.)*"|[A-Za-z_][\w.]*|\d+|[{}=;<>,\[\]()\-.]', src)
    pkg = ''
    i = 0

    def message(i, name):
        m = {'f': {}, 'o': {}}
        out[name] = m
        oneof = None
        while toks[i] != '}' or oneof is not None:
            t = toks[i]
            if t == '}':
                oneof = None
                i += 1
            elif t == 'message' and toks[i + 2] == '{':
                i = message(i + 3, name + '_' + toks[i + 1]) + 1
            elif t == 'enum' and toks[i + 2] == '{':
                i = skip(i + 3) + 1
            elif t == 'oneof' and toks[i + 2] == '{':
                oneof = toks[i + 1]
                m['o'][oneof] = []
                i += 3
            elif t in ('reserved', 'extensions', 'option', 'extend'):
                while toks[i] != ';' and toks[i] != '{':
                    i += 1
                i = skip(i + 1) + 1 if toks[i] == '{' else i + 1
            elif t == ';':
                i += 1
            else:
                label = ''
                if t in ('optional', 'repeated', 'required'):
                    label = t
                    i += 1
                ty = toks[i]
                if ty == 'map':
                    while toks[i] != '>':
                        i += 1
                    label = 'map'
                i += 1
                nm = toks[i]
                num = int(toks[i + 2])
                while toks[i] != ';':
                    i += 1
                m['f'][nm] = (num, ty, label, oneof)
                if oneof:
                    m['o'][oneof].append(nm)
                i += 1
        return i

    def skip(i):
        d = 1
        while d:
            if toks[i] == '{':
                d += 1
            elif toks[i] == '}':
                d -= 1
            i += 1
        return i - 1
    while i < len(toks):
        t = toks[i]
        if t == 'package':
            pkg = toks[i + 1].replace('.', '::') + '::'
            i += 3
        elif t == 'message':
            i = message(i + 3, pkg + toks[i + 1]) + 1
        elif t in ('enum', 'service', 'extend'):
            while toks[i] != '{':
                i += 1
            i = skip(i + 1) + 1
        else:
            i += 1


def is_msg(t):
    t = t.strip()
    if t.startswith('const '):
        t = t[6:]
    return t in tables()


def new(t):
    return ('st', 'msg:' + t, (('$new', TRUE),))


def vget(eng, v, f, dflt, t):
    """field of a message value."""
    fs = None
    base = None
    if v[0] == 'st':
        fs = v[2]
    elif v[0] == 'app' and v[1] == 'with':
        fs = v[3][2]
        base = v[2]
    if fs is not None:
        isnew = False
        for n, x in fs:
            if n == f:
                return x
            if n == '$new' and x == TRUE:
                isnew = True
        if isnew:
            return dflt
        if base is not None:
            return vget(eng, base, f, dflt, t)
    if v[0] == 'app' and v[1] == 'init':
        return eng.opaque_value(('app', 'init', ('fl', v[2], f)), t)
    return eng.opaque_value(('app', 'fld', v, ('n', f)), t)


ABSENT = ('app', 'absent')


def fget(eng, st, loc, f, dflt, t=None):
    v = fget0(eng, st, loc, f, dflt, t)
    if eng.phi and v is not None and v[0] == 'app' and v[1] == 'phi' and not eng.raw:
        v = eng.pick(st, v)
    return dflt if v == ABSENT else v


def fget0(eng, st, loc, f, dflt, t=None):
    v = st.mem.get(loc)
    if v is not None:
        return vget(eng, v, f, dflt, t)
    x = st.mem.get(('fl', loc, f))
    if x is not None:
        return x
    if st.mem.get(('fl', loc, '$new')) == TRUE:
        return dflt
    if eng.has_subs(st, ('fl', loc, f)):
        return eng.read(st, ('fl', loc, f))
    if loc[0] == 'fl':
        # a sub-message that was never touched in a fresh parent
        p = loc[1]
        pv = fget(eng, st, p, loc[2], None)
        if pv is None:
            return dflt
        return vget(eng, pv, f, dflt, t)
    if loc[0] in ('el',) or eng.root_elem(loc):
        return vget(eng, eng.read(st, loc), f, dflt, t)
    b = st.mem.get(('base', loc))
    if b is not None:
        return vget(eng, b, f, dflt, t)
    return eng.opaque_value(('app', 'init', ('fl', loc, f)), t)


def default_of(eng, st, t, pt):
    ty, label = pt[1], pt[2]
    if label in ('repeated', 'map'):
        return ('seq', ())
    if ty in ('string', 'bytes'):
        return ('str', ())
    if ty == 'bool':
        return FALSE
    if ty in ('double', 'float'):
        return ('f', '0.0')
    if ty in SCALARS:
        return ZERO
    ti = eng.tinfo(eng.strip(t or ''))
    if ti.get('k') in ('int', 'enum'):
        return ZERO
    return ('st', 'msg:' + eng.strip(t or ''), (('$new', TRUE),))


def call(eng, st, fr, n, fn, base, vs):
    cls = fn.get('clst') or fn.get('cls') or ''
    if cls.startswith('google::protobuf::RepeatedPtrField') or cls.startswith('google::protobuf::RepeatedField') or cls.startswith('google::protobuf::internal::RepeatedPtr'):
        return repeated(eng, st, fr, n, fn, base, vs)
    T = tables().get(cls)
    m = fn['q'].rsplit('::', 1)[-1]
    void = ('app', 'void')
    if T is None:
        if m in ('ParseFromIstream', 'ParseFromString', 'ParseFromArray', 'ParseFromZeroCopyStream', 'ParseFromFileDescriptor', 'ParseFromCodedStream', 'ParsePartialFromString') and base is not None:
            r = eng.fresh('parsed')
            eng.ranges[r] = (0, 1)
            for l in [l for l in st.mem if l == base or eng.is_under(l, base)]:
                del st.mem[l]
            st.mem[base] = ('app', 'parsedmsg', r, vs[0])
            st.ev('call', fn['q'], base, tuple(vs), r, n['l'], st.locks)
            return [(st, r)]
        return None
    if base is None:
        if m == 'default_instance':
            return [(st, ('ptr', eng.temp(st, new(cls))))]
        return None
    F = T['f']
    rt = n.get('t')

    def present(f):
        return fget(eng, st, base, 'has$' + f, FALSE)

    def mark(s, f):
        o = F[f][3]
        if o:
            for g in T['o'][o]:
                if g != f:
                    for l in [l for l in s.mem if l == ('fl', base, g) or eng.is_under(l, ('fl', base, g))]:
                        del s.mem[l]
            eng.write(s, ('fl', base, 'case$' + o), I(F[f][0]), n['l'])
        elif F[f][2] == 'optional' or (F[f][1] not in SCALARS and F[f][2] not in ('repeated', 'map')):
            eng.write(s, ('fl', base, 'has$' + f), TRUE, n['l'], log=False)

    if m.endswith('_case') and m[:-5] in T['o']:
        v = fget(eng, st, base, 'case$' + m[:-5], ZERO, None)
        if v[0] == 'app':
            eng.ranges.setdefault(v, (0, max(F[g][0] for g in T['o'][m[:-5]])))
            st.facts.sets.setdefault(v, (True, frozenset([0] + [F[g][0] for g in T['o'][m[:-5]]])))
        return [(st, v)]
    if m in F and F[m][2] not in ('repeated', 'map') and not vs:
        f = m
        out = []
        d = default_of(eng, st, rt, F[f])
        o = F[f][3]
        states = [(st, True)]
        if o:
            cv = fget(eng, st, base, 'case$' + o, ZERO, None)
            if cv[0] == 'app':
                eng.ranges.setdefault(cv, (0, max(F[g][0] for g in T['o'][o])))
            states = eng.branch(st, eng.cmp('==', cv, I(F[f][0])))
        for s, t in states:
            if not t:
                v = d
            else:
                ft = eng.strip(rt)
                v = fget(eng, s, base, f, d, ft)
            if n.get('lv'):
                if not t:
                    out.append((s, ('ptr', eng.temp(s, v))))
                else:
                    if v == d:
                        out.append((s, ('ptr', eng.temp(s, v))))
                    else:
                        out.append((s, ('ptr', ('fl', base, f))))
            else:
                out.append((s, v))
        return out
    if m in F and F[m][2] in ('repeated', 'map'):
        f = m
        v = fget(eng, st, base, f, ('seq', ()), None)
        loc = ('fl', base, f)
        if v == ('seq', ()) and st.mem.get(loc) is None:
            st.mem[loc] = v
        if vs:
            from .models import obligation
            obligation(eng, st, fr, n['l'], vs[0], eng.csize(v), 'repeated field index')
            if n.get('lv'):
                return [(st, ('ptr', ('el', loc, vs[0])))]
            return [(st, eng.select(st, v, vs[0], rt))]
        return [(st, ('ptr', loc))]
    if m.endswith('_size') and m[:-5] in F:
        v = fget(eng, st, base, m[:-5], ('seq', ()), None)
        return [(st, eng.csize(v))]
    if m.startswith('has_') and m[4:] in F:
        f = m[4:]
        o = F[f][3]
        if o:
            cv = fget(eng, st, base, 'case$' + o, ZERO, None)
            return [(st, eng.cmp('==', cv, I(F[f][0])))]
        v = present(f)
        if v[0] == 'app':
            eng.ranges.setdefault(v, (0, 1))
        return [(st, v)]
    if m.startswith('set_') and m[4:] in F:
        f = m[4:]
        mark(st, f)
        if F[f][2] in ('repeated',):
            eng.write(st, ('el', ('fl', base, f), vs[0]), text_of(eng, st, fn, 1, vs, F[f][1]), n['l'])
            return [(st, void)]
        eng.write(st, ('fl', base, f), text_of(eng, st, fn, 0, vs, F[f][1]), n['l'])
        return [(st, void)]
    if m.startswith('add_') and m[4:] in F:
        f = m[4:]
        loc = ('fl', base, f)
        v = fget(eng, st, base, f, ('seq', ()), None)
        if vs:
            x = text_of(eng, st, fn, 0, vs, F[f][1])
        else:
            x = ('str', ()) if F[f][1] in ('string', 'bytes') else new(eng.strip(rt).rstrip('* '))
        nv = ('seq', v[1] + (x,)) if v[0] == 'seq' and len(v[1]) < 512 else ('app', 'push', v, x)
        idx = eng.csize(v)
        eng.write(st, loc, nv, n['l'])
        return [(st, void if vs and not (rt or '').endswith('*') else ('ptr', ('el', loc, idx)))]
    if m.startswith('mutable_') and m[8:] in F:
        f = m[8:]
        loc = ('fl', base, f)
        v = fget(eng, st, base, f, None, None)
        mark(st, f)
        if v is None or (F[f][3] and st.mem.get(loc) is None and v[0] != 'st'):
            if F[f][2] in ('repeated', 'map'):
                eng.write(st, loc, ('seq', ()), n['l'])
            elif F[f][1] in ('string', 'bytes'):
                eng.write(st, loc, ('str', ()), n['l'])
            else:
                eng.write(st, loc, new(eng.strip(rt).rstrip('* ')), n['l'])
        return [(st, ('ptr', loc))]
    if m.startswith('clear_') and (m[6:] in F or m[6:] in T['o']):
        f = m[6:]
        if f in T['o']:
            eng.write(st, ('fl', base, 'case$' + f), ZERO, n['l'])
        else:
            if F[f][3]:
                eng.write(st, ('fl', base, 'case$' + F[f][3]), ZERO, n['l'])
            eng.write(st, ('fl', base, f), default_of(eng, st, None, F[f]), n['l'])
            st.mem[('fl', base, 'has$' + f)] = FALSE
        return [(st, void)]
    if m in ('CopyFrom', 'operator=') and vs:
        v = eng.read(st, eng.as_loc(vs[0]), cls) if vs[0][0] == 'ptr' else vs[0]
        eng.write(st, base, v, n['l'])
        return [(st, ('ptr', base))]
    if m == 'Clear':
        eng.write(st, base, new(cls), n['l'])
        return [(st, void)]
    if m in ('ParseFromIstream', 'ParseFromString', 'ParseFromArray', 'ParseFromZeroCopyStream', 'ParseFromFileDescriptor', 'ParseFromCodedStream'):
        r = eng.fresh('parsed')
        eng.ranges[r] = (0, 1)
        for l in [l for l in st.mem if l == base or eng.is_under(l, base)]:
            del st.mem[l]
        st.mem[base] = ('app', 'parsedmsg', r)
        st.ev('call', fn['q'], base, tuple(vs), r, n['l'], st.locks)
        return [(st, r)]
    return None


def text_of(eng, st, fn, i, vs, t):
    v = val_of(eng, st, fn, i, vs)
    if t in ('string', 'bytes') and v[0] == 'ptr':
        from .models import cstr
        return cstr(eng, st, v)
    return v


def val_of(eng, st, fn, i, vs):
    v = vs[i]
    pt = fn.get('pt', [])
    t = pt[i] if i < len(pt) else ''
    if v[0] == 'ptr' and t.endswith('&'):
        return eng.read(st, v[1], eng.strip(t))
    if v[0] == 'ptr' and v[1][0] == 'lit':
        return lit(v[1][1])
    return v


def repeated(eng, st, fr, n, fn, base, vs):
    m = fn['q'].rsplit('::', 1)[-1]
    if base is None:
        return None
    v = eng.read(st, base)
    size = eng.csize(v)
    if m == 'size':
        return [(st, size)]
    if m == 'empty':
        return [(st, eng.cmp('==', size, ZERO))]
    if m in ('begin', 'cbegin'):
        return [(st, ('ptr', ('el', base, ZERO)))]
    if m in ('end', 'cend'):
        return [(st, ('ptr', ('el', base, size)))]
    if m in ('Get', 'operator[]', 'at', 'Mutable'):
        from .models import obligation
        obligation(eng, st, fr, n['l'], vs[0], size, 'repeated field index')
        if n.get('lv') or m == 'Mutable':
            return [(st, ('ptr', ('el', base, vs[0])))]
        return [(st, eng.select(st, v, vs[0], n.get('t')))]
    return None
