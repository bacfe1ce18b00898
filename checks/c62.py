"""C62: a request to begin a transaction is answered once, when the transaction may start or cannot."""
from contracts import *
from sai import db
import c57
import c60

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over requests to begin a transaction with any options and any answer of the engine, task by task')
SRC = c57.SRC + [x for x in c60.SRC if x not in c57.SRC] + ['src/jogasaki/api/impl/error_info.cpp']
GONE = ('sharksfin::transaction_check', 'jogasaki::kvs::transaction::check_state')
HOOKS = {k: v for k, v in {**c57.HOOKS, **c60.HOOKS}.items() if k not in GONE}


def run(c):
    d = db.load([probe('begins.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/begins.cpp', *SRC}
    for ns in ('begins', 'areas'):
        run_contracts(c, d, ns, engine_opts=dict(c57.OPTS, hooks=HOOKS))
