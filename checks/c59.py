"""C59: a statement is run only when its user may, its transaction is active and its tables are free; otherwise nothing of it is run."""
from contracts import *
from sai import db
import c52
import c57
import c58

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over statements of any user, any grants and any state of the transaction and the tables')
S = 'src/jogasaki/'
SRC = c57.SRC + [S + f for f in ('executor/executor.cpp', 'storage/storage_manager.cpp', 'storage/unique_lock.cpp', 'storage/shared_lock.cpp', 'storage/reference_scope.cpp', 'auth/action_set.cpp',
                                 'auth/authorized_users_action_set.cpp', 'api/impl/executable_statement.cpp', 'plan/mirror_container.cpp')]
HOOKS = {**c58.HOOKS, **{'jogasaki::executor::' + x: c52.nothing for x in ('external_log_stmt_start', 'external_log_stmt_end', 'external_log_stmt_explain')}}
OPTS = c57.OPTS


def run(c):
    d = db.load([probe('allowed.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/allowed.cpp', *SRC}
    for ns in ('allowed',):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))
