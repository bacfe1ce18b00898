// Analysed only: stands in for a header that is not installed here.
#pragma once
#include "compiled_info.h"
namespace yugawara { class compiler_result; }
