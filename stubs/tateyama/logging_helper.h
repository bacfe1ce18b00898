#pragma once
#include <glog/logging.h>
#include <string_view>
namespace tateyama {
constexpr std::size_t find_fullname(std::string_view, std::string_view) { return 0; }
}
