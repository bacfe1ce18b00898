"""Shared helpers of the checks."""
import glob
import os
from sai import db, engine
from sai.check import where
from sai.terms import *

HEADERS = '/verif/probes/headers.cpp'
V = db.VERIF
ONE = I(1)


def probe(name):
    return os.path.join(V, 'probes', name)


SUBSET = '''accessor/text.cpp api/impl/error_info.cpp api/kvsservice/mapped_record.cpp api/kvsservice/transaction_options.cpp
data/aligned_buffer.cpp data/binary_string_value.cpp error/error_info.cpp executor/batch/batch_executor_option.cpp
executor/dto/common_column_utils.cpp executor/dto/describe_table_utils.cpp memory/details/page_allocation_info.cpp
meta/character_field_option.cpp meta/decimal_field_option.cpp meta/octet_field_option.cpp meta/time_of_day_field_option.cpp
meta/time_point_field_option.cpp request_statistics.cpp udf/descriptor/descriptor_analyzer.cpp udf/descriptor/descriptor_reader.cpp
udf/descriptor/validation/message_duplicate_validator.cpp udf/descriptor/validation/rpc_duplicate_validator.cpp udf/descriptor_impl.cpp
udf/error_info.cpp udf/generic_client_context.cpp udf/generic_record_impl.cpp udf/plugin_api.cpp udf/udf_config.cpp
utils/base64_utils.cpp utils/convert_control_characters.cpp utils/hex_to_octet.cpp utils/latch.cpp utils/performance_tools.cpp
utils/proto_debug_string.cpp utils/sanitize_utf8.cpp utils/string_manipulation.cpp utils/string_utils.cpp utils/use_counter.cpp
utils/utf8_utils.cpp utils/watch.cpp'''.split()


def all_units():
    return ['src/jogasaki/' + x for x in SUBSET] + [probe('headers.cpp')]


def in_repo(f):
    return f.get('file', '').startswith(db.REPO + '/')


def cstr(v):
    """constant text of a value, or None."""
    s = const_str(v)
    return s.decode('latin-1') if s is not None else None


def param(f, i=0):
    return ('app', 'param', ('n', f['params'][i]['n'] or f'#{i}'))


def pd(f, i=0):
    """location a reference parameter refers to."""
    return ('d', param(f, i))


THIS = ('d', ('app', 'this'))


def fld(loc, *names):
    for n in names:
        loc = ('fl', loc, n)
    return loc


def init(loc):
    return ('app', 'init', loc)
