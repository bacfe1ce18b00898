"""C53: granted actions decide what a user may do."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over any users and any combination of granted and revoked actions')
SRC = ['src/jogasaki/auth/action_set.cpp', 'src/jogasaki/auth/authorized_users_action_set.cpp']


def nothing(e, st, fr, n, base, vs):
    return [(st, ZERO)]


HOOKS = {'jogasaki::utils::basename_start': nothing}


def run(c):
    d = db.load([probe('actions.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/actions.cpp', *SRC}
    run_contracts(c, d, 'actions', engine_opts=dict(only_throws=True, hooks=HOOKS))
