// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <functional>
#include <memory>
#include <shared_mutex>
#include <string_view>
#include "index.h"
#include "relation.h"
#include "sequence.h"
#include "table.h"
namespace yugawara::storage {
class declaration;
class provider { public: virtual ~provider() = default; };
template<class Mutex> class basic_configurable_provider : public provider {
public:
    void each_relation(std::function<void(std::string_view, std::shared_ptr<relation const> const&)> const& consumer) const;
    void each_index(std::function<void(std::string_view, std::shared_ptr<index const> const&)> const& consumer) const;
    std::shared_ptr<table const> find_table(std::string_view id) const;
};
using configurable_provider = basic_configurable_provider<std::shared_mutex>;
}
