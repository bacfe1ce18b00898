// Analysed only, never compiled or run: compositions whose meaning the checker derives.
#include "jogasaki/executor/dto/common_column.h"
#include "jogasaki/executor/dto/common_column_utils.h"
#include "jogasaki/executor/dto/describe_table.h"
#include "jogasaki/executor/dto/describe_table_utils.h"

namespace probe {
using namespace jogasaki::executor::dto;
common_column column_round_trip(common_column const& x) { return from_proto(to_proto(x)); }
}
