"""C63: the values of a sequence, and what a commit keeps of them."""
from contracts import *
from sai import db
import c57

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over sequences with any bounds, steps and values')
S = 'src/jogasaki/'
SRC = [S + f for f in ('executor/sequence/sequence.cpp', 'executor/sequence/manager.cpp', 'executor/sequence/info.cpp', 'kvs/database.cpp', 'kvs/transaction.cpp', 'kvs/error.cpp')]
HOOKS = {}
OPTS = c57.OPTS


def run(c):
    d = db.load([probe('sequences.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/sequences.cpp', *SRC}
    run_contracts(c, d, 'counters', engine_opts=dict(OPTS, hooks=HOOKS))
