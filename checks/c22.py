"""C22: key-value service records and transaction options."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over arbitrary options and over records of up to three columns with arbitrary names and values are summarised path by path; each path has to give true; '
              'the loop that maps a record of any size is summarised as one arbitrary step')
TUS = ['src/jogasaki/api/kvsservice/mapped_record.cpp', 'src/jogasaki/api/kvsservice/transaction_options.cpp']


def run(c):
    d = db.load([probe('kvs.cpp')] + TUS)
    c.units |= {'probes/kvs.cpp', *TUS}
    run_contracts(c, d, 'kvs')
