"""C21: error records, their public view and exceptions."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over arbitrary codes, texts and orders of additions are summarised path by path through the error record, its public view, the diagnostic record '
              'and the exceptions; each path has to give true')
TUS = ['src/jogasaki/error/error_info.cpp', 'src/jogasaki/api/impl/error_info.cpp']


def run(c):
    d = db.load([probe('errors.cpp')] + TUS)
    c.units |= {'probes/errors.cpp', *TUS}
    run_contracts(c, d, 'errors')
