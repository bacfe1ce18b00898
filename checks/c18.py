"""C18: function descriptors, versions and configuration."""
from contracts import *
from sai import db

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over arbitrary names, numbers, kinds and parts are summarised path by path through the constructors and accessors; each path has to give true')
SRC = ['src/jogasaki/udf/' + x for x in ('descriptor_impl.cpp', 'udf_config.cpp', 'error_info.cpp', 'generic_client_context.cpp', 'plugin_api.cpp')]


def run(c):
    d = db.load([probe('udf.cpp')] + SRC)
    c.units |= {'probes/udf.cpp', *SRC}
    run_contracts(c, d, 'udf')
