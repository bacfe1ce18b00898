// Analysed only: stands in for a header that is not installed here.
#pragma once
#include <cstddef>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
namespace tateyama::api::server {
class response;
enum class user_type { administrator, standard };
class session_info {
public:
    virtual ~session_info() = default;
    virtual std::size_t id() const noexcept = 0;
    virtual std::string_view label() const noexcept = 0;
    virtual std::string_view application_name() const noexcept = 0;
    virtual std::optional<std::string_view> username() const noexcept = 0;
    virtual enum user_type user_type() const noexcept = 0;
};
class database_info {
public:
    virtual ~database_info() = default;
    virtual std::string_view name() const noexcept = 0;
};
class request {
public:
    virtual ~request() = default;
    virtual std::size_t session_id() const = 0;
    virtual std::size_t service_id() const = 0;
    virtual std::size_t local_id() const = 0;
    virtual std::string_view payload() const = 0;
    virtual class database_info const& database_info() const noexcept = 0;
    virtual class session_info const& session_info() const noexcept = 0;
};
}
