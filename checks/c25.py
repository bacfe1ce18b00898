"""C25: the ordering of step states."""
from common import *

FINISH = dict(floor=0.9, minimum=200, explanation='every comparison operator of the step states is evaluated by the value-flow analysis on every pair of states '
              'and compared with the life-cycle order')
LIFE = ['uninitialized', 'created', 'activated', 'preparing', 'prepared', 'running', 'completing', 'completed', 'deactivated']
OPS = {'operator<': lambda a, b: a < b, 'operator>': lambda a, b: a > b, 'operator<=': lambda a, b: a <= b,
       'operator>=': lambda a, b: a >= b, 'operator==': lambda a, b: a == b, 'operator!=': lambda a, b: a != b}


def run(c):
    d = db.load([HEADERS])
    c.units |= set(d.tus)
    en = d.enums.get('jogasaki::scheduler::step_state_kind')
    if not en:
        raise db.AnalysisBroken('step_state_kind not found')
    val = {x['n']: int(x['v']) for x in en['e']}
    c.ob(sorted(val) == sorted(LIFE) or None, 'known states', 'step_state_kind')
    c.ob(len(set(val.values())) == len(val), 'states are distinct values', 'step_state_kind')
    n = 0
    for op, sp in OPS.items():
        for f in d.byq.get('jogasaki::scheduler::' + op, ()):
            ps = f['params']
            if len(ps) != 2 or any('step_state_kind' not in p['t'] for p in ps):
                continue
            n += 1
            for i, a in enumerate(LIFE):
                for j, b in enumerate(LIFE):
                    if a not in val or b not in val:
                        continue
                    e = engine.Engine(d)

                    def setup(st, va=val[a], vb=val[b]):
                        st.mem[('d', ('app', 'lhs'))] = I(va)
                        st.mem[('d', ('app', 'rhs'))] = I(vb)
                    args = [('ptr', ('d', ('app', nm))) if p['t'].endswith('&') else I(v) for p, nm, v in zip(ps, ('lhs', 'rhs'), (val[a], val[b]))]
                    rs = e.run(f, args=args, setup=setup)
                    c.analysed(e)
                    for s in rs:
                        k = f'{op}({a}, {b})'
                        if s.ctrl is not None:
                            c.fail('life-cycle order', k, where(f), f'ends with {s.ctrl[0]}')
                        elif s.ret[0] != 'i':
                            c.undecided('life-cycle order', k, where(f), show(s.ret)[:100])
                        else:
                            c.ob(bool(s.ret[1]) == sp(i, j), 'life-cycle order', k, where(f), f'gives {bool(s.ret[1])}')
    if n < 4:
        # operators left out fall back to the built-in comparison of the enumerators' values
        order = [val[x] for x in LIFE if x in val]
        c.ob(order == sorted(order), 'enumerator values follow the life cycle', 'step_state_kind')
