"""C57: a request ends once, after its tasks; a task runs inside its transaction or not at all."""
from contracts import *
from sai import db
import c52
import c54
import c56

FINISH = dict(floor=0.1, minimum=3, explanation='contracts over requests whose tasks are run one by one, with other threads acting between any two steps')
S = 'src/jogasaki/'
SRC = [S + f for f in ('scheduler/flat_task.cpp', 'scheduler/task_scheduler.cpp', 'scheduler/task_factory.cpp', 'scheduler/job_context.cpp', 'transaction_context.cpp', 'transaction_state.cpp',
                       'request_context.cpp', 'kvs/transaction.cpp', 'durability_common.cpp', 'error/error_info.cpp', 'error/error_info_factory.cpp', 'utils/latch.cpp', 'utils/cancel_request.cpp')]


def run(c):
    d = db.load([probe('jobs.cpp')] + SRC, stubs=True, allow_errors=True)
    c.units |= {'probes/jobs.cpp', *SRC}
    for ns in ('ending', 'running'):
        run_contracts(c, d, ns, engine_opts=dict(OPTS, hooks=HOOKS))


OPTS = dict(only_throws=True, quiet_logs=True)
LOGS = ('log_request', 'log_end_of_tx', 'log_end_of_commit_request', 'log_end_of_tx_and_commit_request')


def any_state(e, st, n):
    return (c54 if 'termination_state' in c54.about(n) or 'transaction_state_kind' in c54.about(n) else c56).any_state(e, st, n)


def kind(n):
    return c54.kind(n) if 'state' in c54.about(n) else 'bool' if 'bool' in c54.about(n) else 'unsigned long'


def loaded(e, st, fr, n, base, vs):
    return [(st, e.opaque_value(('app', 'param', ('n', 'loaded')), 'jogasaki::executor::file::loader_result'))]


def failure(e, st, fr, n, base, vs):
    return [(st, ('st', 'std::pair', (('first', I(-2)), ('second', ('app', 'param', ('n', 'message'))))))]


def write(e, st, fr, n, base, vs):
    s = st.copy()
    s.ev('write')
    return [(s, ('app', 'bool', ('n', 'written')))]


def writes(e, st, fr, n, base, vs):
    return [(st, I(sum(x[0] == 'write' for x in st.eff)))]


HOOKS = {**c54.HOOKS, **c52.with_threads(any_state, {}, kind), **{x: c54.HOOKS[x] for x in ('std::atomic_load', 'std::atomic_compare_exchange_strong')},
         **{'jogasaki::' + x: c52.nothing for x in LOGS}, 'jogasaki::utils::request_cancel_enabled': c56.enabled, 'probe::ready_to_cancel': c56.enabled,
         'probe::loaded': loaded, 'jogasaki::executor::file::loader::operator()': loaded, 'jogasaki::executor::file::loader::error_info': failure,
         'jogasaki::executor::common::write_statement::operator()': write, 'probe::written': writes}
