"""C23: request statistics."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over arbitrary kinds, amounts and times are summarised path by path through the counters and the statistics object; each path has to give true')


def run(c):
    d = db.load([probe('stats.cpp'), 'src/jogasaki/request_statistics.cpp'])
    c.units |= {'probes/stats.cpp', 'src/jogasaki/request_statistics.cpp'}
    run_contracts(c, d, 'stats')
