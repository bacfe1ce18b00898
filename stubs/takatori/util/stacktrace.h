// Analysed only: stands in for the header of the SDK, which is not installed here.
#pragma once
#include <ostream>
namespace boost::stacktrace { struct stacktrace {}; std::ostream& operator<<(std::ostream& out, stacktrace const& value); }
namespace takatori::util {
template<class T> boost::stacktrace::stacktrace const* find_trace(T const& e);
}
