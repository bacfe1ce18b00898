"""C58: a request to commit is decided once, asks the engine at most once and is told what became of it."""
from contracts import *
from sai import db
import c57

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over requests to commit, any answer of the storage engine and any markers, task by task')
S = 'src/jogasaki/'
SRC = c57.SRC + [S + f for f in ('executor/executor.cpp', 'api/transaction_handle.cpp', 'durability_manager.cpp', 'kvs/error.cpp', 'storage/unique_lock.cpp', 'storage/reference_scope.cpp')]


HOOKS = {k: v for k, v in c57.HOOKS.items() if k not in ('sharksfin::transaction_commit_with_callback', 'jogasaki::kvs::transaction::commit', 'sharksfin::transaction_abort', 'sharksfin::transaction_dispose', 'jogasaki::kvs::transaction::abort_transaction')}
OPTS = c57.OPTS


def run(c):
    d = db.load([probe('commits.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/commits.cpp', *SRC}
    for ns in ('commits',):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))
