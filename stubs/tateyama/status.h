// Analysed only.
#pragma once
namespace tateyama {
enum class status { ok = 0, not_found, already_exists, unknown, err_unknown, operation_denied };
}
