#pragma once
#define trace_scope_name(x)
#define trace_scope
