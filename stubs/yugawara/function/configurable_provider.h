// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <memory>
#include <shared_mutex>

namespace yugawara::function {
class declaration;
class provider { public: virtual ~provider() = default; };
template<class Mutex> class basic_configurable_provider : public provider {};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}
