// Stand-in for a header of the SDK that is not installed: only what the analysed files use.
#pragma once
#include <exception>
#include <string>
#include <utility>
#include "stacktrace.h"
namespace boost { class exception; std::string diagnostic_information(exception const&); }
namespace takatori::util {
template<class E> [[noreturn]] void throw_exception(E&& e) { throw std::forward<E>(e); }
}
