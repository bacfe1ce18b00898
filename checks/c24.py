"""C24: large object references."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over arbitrary references, locators, identifiers and providers are summarised path by path through the constructors, accessors and comparison operators; '
              'each path has to give true')


def run(c):
    d = db.load([probe('lob.cpp')])
    c.units |= {'probes/lob.cpp'}
    run_contracts(c, d, 'lob')
