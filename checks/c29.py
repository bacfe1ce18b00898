"""C29: loading function libraries."""
from contracts import *
from sai import db, models

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over loading a library in which every step may fail')
U = 'src/jogasaki/udf/'
SRC = [U + 'udf_loader.cpp', U + 'error_info.cpp', U + 'udf_config.cpp']


def run(c):
    d = db.load([probe('loader.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/loader.cpp', *SRC}
    run_contracts(c, d, 'loader', engine_opts=dict(only_throws=True, hooks=HOOKS))
    run_contracts(c, d, 'directory', engine_opts=dict(only_throws=True, hooks={**HOOKS, **TREE}))


def literal(e, st, v):
    """the text a pointer to characters stands for, or None."""
    if v[0] == 'ptr' and v[1][0] == 'chr' and v[1][1][0] == 'str' and all(p[0] == 'lit' for p in v[1][1][1]):
        return b''.join(p[1] for p in v[1][1][1])


def value(e, st, v):
    return v if literal(e, st, v) is not None or v[0] != 'ptr' or v[1][0] not in ('t', 'v', 'd') else e.read(st, v[1])


def note(what):
    def f(e, st, fr, n, base, vs):
        s = st.copy()
        s.ev(what, *(value(e, st, v) for v in vs))
        return [(s, ('app', 'void'))]
    return f


def last(st, what, *key):
    for x in reversed(st.eff):
        if x[0] == what and x[1:1 + len(key)] == key:
            return x


def symbol(e, st, fr, n, base, vs):
    for x in reversed(st.eff):
        if x[0] == 'symbol' and literal(e, st, x[1]) == literal(e, st, vs[1]):
            return [(st, x[2])]


def readable(e, st, fr, n, base, vs):
    x = last(st, 'settings')
    if x is None:
        return None
    return [(s, ('app', 'void')) if t else (models.throw(e, s, 'boost::property_tree::ini_parser::ini_parser_error', n.get('l', 0), fr), ('app', 'void'))
            for s, t in e.branch(st, x[1])]


def setting(e, st, fr, n, base, vs):
    if 'unsigned' in n['t'] or 'size_t' in n['t']:
        x = last(st, 'timeout')
        return [(st, ('opt', x[1]) if len(x) > 1 else ('nullopt',))]
    for x in reversed(st.eff):
        if x[0] == 'setting' and repr(literal(e, st, x[1])) in repr(value(e, st, vs[0])):
            return [(st, x[2])]


HOOKS = {'probe::the_symbol': note('symbol'), 'dlsym': symbol,
         'probe::the_settings': note('settings'), 'probe::a_setting': note('setting'), 'probe::a_timeout': note('timeout'), 'probe::no_timeout': note('timeout'),
         'boost::property_tree::ini_parser::read_ini': readable}
HOOKS['boost::property_tree::basic_ptree::get_optional'] = setting


def given(what):
    def f(e, st, fr, n, base, vs):
        x = last(st, what)
        return [(st, x[1])] if x else None
    return f


def opening(e, st, fr, n, base, vs):
    x = last(st, 'library')
    if x is None:
        return None
    s = st.copy()
    s.ev('open')
    return [(s, x[1])]


def opened(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'open' for x in st.eff)))]


def closed(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'close' and (not vs or x[1] == vs[0]) for x in st.eff)))]


def let_go(e, st, fr, n, base, vs):
    at = [i for i, x in enumerate(st.eff) if x[0] == 'close']
    gone = [i for i, x in enumerate(st.eff) if x[0] == 'wr' and x[1][0] == 'fl' and x[1][2] == 'plugins_']
    return [(st, I(gone[0] < at[0]))] if at and gone else None


def text(e, st, fr, n, base, vs):
    """a path the text of which is known."""
    v = e.read(st, base)
    return [(st, v)] if v[0] == 'str' else None


def anything(what):
    return lambda e, st, fr, n, base, vs: [(st, ('app', 'param', ('n', what)))]


HOOKS.update({'jogasaki::global::config_pool': anything('configuration'), 'dlerror': anything('reason'), 'probe::a_library_opens': note('library'), 'dlopen': opening, 'dlclose': note('close'), 'probe::opened': opened, 'probe::closed': closed,
              'probe::let_go_before_closing': let_go, 'probe::the_library_exists': note('there'), 'std::filesystem::exists': given('there'),
              'probe::the_stem': note('stem'), 'std::filesystem::path::stem': given('stem'), 'std::filesystem::path::string': text})


# ---- directories: paths are their texts
def txt(e, st, v):
    """the text of a path, a string or a literal; None when it is not known."""
    x = literal(e, st, v)
    if x is None:
        v = e.read(st, v[1]) if v[0] == 'ptr' else v
        if v[0] == 'str' and all(p[0] == 'lit' for p in v[1]):
            x = b''.join(p[1] for p in v[1])
    return x


def lit(b):
    return ('str', (('lit', b),) if b else ())


def texts(v):
    return [b''.join(p[1] for p in x[1]) for x in v[1]] if v[0] == 'seq' and all(x[0] == 'str' and all(p[0] == 'lit' for p in x[1]) for x in v[1]) else None


def from_text(f, n=1):
    """a function of the texts of its object and arguments."""
    def g(e, st, fr, nd, base, vs):
        ts = ([txt(e, st, ('ptr', base))] if base is not None else []) + [txt(e, st, v) for v in vs]
        if None in ts[:n] or len(ts) < n:
            return None
        r = f(*ts[:n])
        return [(st, I(r) if isinstance(r, (bool, int)) else lit(r))]
    return g


def name(p):
    return p.rsplit(b'/', 1)[-1]


def ext(p):
    n = name(p)
    return n[n.rindex(b'.'):] if b'.' in n[1:] else b''


def place(k):
    def f(e, st, fr, n, base, vs):
        t = txt(e, st, vs[0])
        for x in reversed(st.eff):
            if x[0] == 'there is' and t is not None and literal(e, st, x[1]) == t:
                return [(st, x[k])]
    return f


def listing(e, st, fr, n, base, vs):
    x = last(st, 'holds')
    t = txt(e, st, vs[0])
    fs, os = (texts(v) for v in x[1:])
    if t is None or fs is None or os is None:
        return None
    return [(st, ('seq', tuple(('st', '$entry', (('path', lit(t + b'/' + f)), ('file', I(f in fs)))) for f in fs + os)))]


def entry(k):
    def f(e, st, fr, n, base, vs):
        v = dict(e.read(st, base)[2]).get(k) if e.read(st, base)[:2] == ('st', '$entry') else None
        if v is None:
            return None
        s = st.copy()
        return [(s, ('ptr', e.temp(s, v)) if k == 'path' else v)]
    return f


def analysis(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('read', value(e, st, vs[0]))
    return [(s, last(st, 'analysis')[1])]


def rpc(e, st, fr, n, base, vs):
    ok, bad = (next(I(int(x['v'])) for x in e.db.enums['plugin::udf::rpc_duplicate_check_status']['e'] if x['n'] == k) for k in ('ok', 'rpc_name_duplicated'))
    return [(s, bad if t else ok) for s, t in e.branch(st, e.to_bool(last(st, 'functions')[1]))]


def attempt(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('try', txt(e, st, vs[0]), value(e, st, vs[1]))
    had = e.read(s, vs[3][1])
    if had[0] != 'seq':
        return None
    e.write(s, vs[3][1], ('seq', had[1] + (('app', 'param', ('n', 'outcome')),)))
    return [(s, ('app', 'void'))]


def attempts(st):
    return [x for x in st.eff if x[0] == 'try']


def tries(e, st, fr, n, base, vs):
    return [(st, I(len(attempts(st))))]


def tried(e, st, fr, n, base, vs):
    a = attempts(st)
    return [(st, I(vs[0][1] < len(a) and a[vs[0][1]][1] == literal(e, st, vs[1])))]


def tried_with(e, st, fr, n, base, vs):
    a = attempts(st)
    if vs[0][1] >= len(a):
        return [(st, FALSE)]
    m = a[vs[0][1]][2]
    keys = []
    while m[:2] == ('app', 'mput'):
        keys.append(m[3])
        m = m[2]
    keys = texts(('seq', tuple(keys)))
    if keys is None or m != ('seq', ()):
        raise engine.Undecided(f'the libraries with conflicts: {show(m)[:90]}')
    return [(st, I(literal(e, st, vs[1]) in keys))]


def read_from(e, st, fr, n, base, vs):
    x = [x[1] for x in st.eff if x[0] == 'read']
    return [(st, I(len(x) == 1 and texts(x[0]) == texts(value(e, st, vs[0]))))]


def not_read(e, st, fr, n, base, vs):
    return [(st, I(not any(x[0] == 'read' for x in st.eff)))]


def sort(e, st, fr, n, base, vs):
    if len(vs) != 2 or any(v[0] != 'ptr' or v[1][0] != 'el' for v in vs) or vs[0][1][2] != ZERO:
        return None
    loc = vs[0][1][1]
    v = e.read(st, loc)
    if texts(v) is None or vs[1][1] != ('el', loc, I(len(v[1]))):
        return None
    s = st.copy()
    e.write(s, loc, ('seq', tuple(lit(t) for t in sorted(texts(v)))))
    return [(s, ('app', 'void'))]


P = 'std::filesystem::path::'
TREE = {'std::sort': sort, 'probe::there_is': note('there is'), 'probe::the_directory_holds': note('holds'), 'probe::the_analysis_gives': note('analysis'),
        'probe::functions_conflict': note('functions'), 'probe::messages_conflict': note('messages'),
        'std::filesystem::exists': place(2), 'std::filesystem::is_directory': place(3),
        P + 'path': from_text(lambda t: t), P + 'operator=': None, P + 'string': from_text(lambda t: t), P + 'extension': from_text(ext), P + 'filename': from_text(name),
        P + 'stem': from_text(lambda t: name(t)[:len(name(t)) - len(ext(t))]),
        'std::filesystem::operator/': from_text(lambda a, b: b if b[:1] == b'/' else a + b'/' + b, 2), 'std::filesystem::operator==': from_text(lambda a, b: a == b, 2),
        'std::filesystem::directory_iterator::directory_iterator': listing,
        'std::filesystem::directory_entry::is_regular_file': entry('file'), 'std::filesystem::directory_entry::path': entry('path'),
        'jogasaki::udf::descriptor::analyze_descriptors': analysis, 'jogasaki::udf::descriptor::validation::validate_rpc_method_duplicates': rpc,
        'jogasaki::udf::descriptor::validation::filter_message_definition_duplicates': given('messages'),
        'plugin::udf::udf_loader::load_one_plugin': attempt, 'probe::tries': tries, 'probe::tried': tried, 'probe::tried_with': tried_with,
        'probe::read_from': read_from, 'probe::not_read': not_read}
TREE = {k: v for k, v in TREE.items() if v}
