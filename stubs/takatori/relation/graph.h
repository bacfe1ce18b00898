// Analysed only: stands in for a header that is not installed here.
#pragma once
#include "expression.h"
namespace takatori::relation { class graph_type { }; }
