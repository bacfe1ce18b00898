// Analysed only: stands in for a header that is not installed here.
#pragma once
namespace takatori::relation { enum class expression_kind { find, scan, join_find, join_scan, apply, project, filter, buffer, identify, emit, write, values, join_group, aggregate_group, intersection_group, difference_group, flatten_group, take_flat, offer, take_group, take_cogroup }; }
