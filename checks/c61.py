"""C61: a dropped table or index is deleted once, and only when no transaction uses it any more."""
from contracts import *
from sai import db
import c58

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over rounds of maintenance after tables and indices were dropped')
S = 'src/jogasaki/'
SRC = [S + f for f in ('storage/maintenance_storage.cpp', 'storage/storage_manager.cpp', 'storage/reference_scope.cpp', 'auth/action_set.cpp', 'auth/authorized_users_action_set.cpp')]
HOOKS = dict(c58.HOOKS)
OPTS = c58.OPTS


def run(c):
    d = db.load([probe('dropping.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/dropping.cpp', *SRC}
    for ns in ('dropping',):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))
