// Analysed only: stands in for a header that is not installed here.
#pragma once
#include "expression_kind.h"
namespace takatori::relation { class expression { public: virtual ~expression() = default; virtual expression_kind kind() const noexcept = 0; }; }
