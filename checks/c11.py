"""C11: pages and what is allocated from them."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over pages at any address with any part in use, and over short histories of the resources that hand out pages with any sizes; '
              'arithmetic is modulo the width of its type')
PAGE = ['src/jogasaki/memory/details/page_allocation_info.cpp']
RES = [f'src/jogasaki/memory/{k}_paged_memory_resource.cpp' for k in ('monotonic', 'lifo', 'fifo')]
SIZE = 2 * 1024 * 1024
PMR = 'boost::container::pmr::memory_resource::'
POOL = 'jogasaki::memory::page_pool::'


def run(c):
    d = db.load([probe('pages.cpp')] + PAGE)
    c.units |= {'probes/pages.cpp', *PAGE}
    run_contracts(c, d, 'pages', engine_opts=dict(exact=True, hooks=HOOKS))
    d = db.load([probe('resources.cpp')] + PAGE + RES, stubs=True, also=[db.STUBS + '/'])
    c.units |= {'probes/resources.cpp', *RES}
    run_contracts(c, d, 'resources', engine_opts=dict(exact=True, hooks=RESOURCES))


def virtual(name):
    """the call of the base class reaches the overrider of the object's own class."""
    def go(e, st, fr, n, base, vs):
        t = e.loc_type(base)
        for f in e.db.fns.values():
            if t and f['q'] == e.strip(t) + '::' + name and f.get('body') is not None:
                return e.invoke(f, st, base, vs, n, fr)
        return None
    return go


def align(e, st, fr, n, base, vs):
    f = e.db.find('probe::align')
    return e.invoke(f[0], st, base, vs, n, fr)


HOOKS = {'std::align': align}


def address(v):
    return v[2] if v[0] == 'app' and v[1] == 'IntegralToPointer' else v


def taken(st):
    return [x[1] for x in st.eff if x[0] == 'page taken']


def given(st):
    return [x[1] for x in st.eff if x[0] == 'page given']


def acquire(e, st, fr, n, base, vs):
    """a page of its own: apart from those in use, at an address aligned for it."""
    out = []
    if any(x[0] == 'no pages' for x in st.eff):
        return [(st, page(e, st, NULL, ZERO))]
    h = e.int_app('page', I(len(taken(st))), ZERO, 'unsigned long')
    h = scale(h, 4096)
    node = e.int_app('node', I(len(taken(st))), ZERO, 'unsigned long')
    states = [st.copy()]
    states[0].facts.add_ge0(sub(h, I(4096)), e.ranges)
    states[0].facts.add_ge0(sub(I(1 << 47), h), e.ranges)
    for g in taken(st):
        if g not in given(st):
            states = [s for t in states for x in (sub(sub(h, g), I(SIZE)), sub(sub(g, h), I(SIZE))) for s in apart(e, t, x)]
    for s in states:
        s.ev('page taken', h)
        out.append((s, page(e, s, h, node)))
    return out


def apart(e, st, x):
    s = st.copy()
    return [s] if s.facts.add_ge0(x, e.ranges) else []


def release(e, st, fr, n, base, vs):
    s = st.copy()
    v = e.read(s, vs[0][1]) if vs[0][0] == 'ptr' else vs[0]
    s.ev('page given', address(dict(v[2])['address_']) if v[0] == 'st' else v)
    return [(s, ('app', 'void'))]


def page(e, st, h, node):
    return ('st', POOL + 'page_info', (('address_', h if h == NULL else ('app', 'IntegralToPointer', h)), ('birth_place_', node)))


def returned(e, st, fr, n, base, vs):
    return [(st, I(sorted(taken(st)) == sorted(given(st))))]


def held(e, st, fr, n, base, vs):
    p = address(vs[0])
    ok = [g for g in taken(st) if g not in given(st) and st.facts.proves_ge0(sub(p, g), e.ranges) and st.facts.proves_ge0(sub(add(g, I(SIZE)), add(p, vs[1])), e.ranges)]
    return [(st, I(bool(ok)))]


def count(e, st, fr, n, base, vs):
    return [(st, I(len(taken(st)) - len(given(st))))]


def exhausted(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('no pages')
    return [(s, ('app', 'void'))]


RESOURCES = {**HOOKS, POOL + 'acquire_page': acquire, POOL + 'release_page': release,
             PMR + 'is_equal': virtual('do_is_equal'), 'jogasaki::memory::paged_memory_resource::do_page_remaining': virtual('do_page_remaining'),
             PMR + 'allocate': virtual('do_allocate'), PMR + 'deallocate': virtual('do_deallocate'),
             'probe::each_page_returned_once': returned, 'probe::held': held, 'probe::pages_held': count, 'probe::no_more_pages': exhausted}
