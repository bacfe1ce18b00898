#pragma once
namespace takatori::scalar { enum class comparison_operator { equal, not_equal, less, less_equal, greater, greater_equal }; }
