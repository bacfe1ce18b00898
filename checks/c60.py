"""C60: a handle leads to the transaction or statement it was given for, in its session and until it is given back."""
from contracts import *
from sai import db
import c57
import c58

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over the handles of transactions and statements of any sessions')
S = 'src/jogasaki/'
SRC = [S + f for f in ('api/impl/transaction_store.cpp', 'api/impl/statement_store.cpp', 'api/impl/prepared_statement.cpp', 'plan/mirror_container.cpp', 'error/error_info.cpp', 'error/error_info_factory.cpp', 'plan/executable_statement.cpp', 'api/impl/executable_statement.cpp', 'utils/string_manipulation.cpp', 'api/transaction_handle.cpp', 'api/statement_handle.cpp', 'transaction_context.cpp',
                       'transaction_state.cpp', 'storage/storage_manager.cpp', 'auth/action_set.cpp', 'auth/authorized_users_action_set.cpp')]


HOOKS = dict(c58.HOOKS)
OPTS = c57.OPTS


def run(c):
    d = db.load([probe('sessions.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/sessions.cpp', *SRC}
    for ns in ('handles', 'listed'):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))
