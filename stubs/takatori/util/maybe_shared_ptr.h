// Analysed only: stands in for the header of the SDK, which is not installed here.  A pointer that may or may not own
// what it points to.
#pragma once
#include <cstddef>
#include <memory>
#include <type_traits>
#include <utility>
namespace takatori::util {
template<class T> class maybe_shared_ptr {
public:
    using element_type = T;
    maybe_shared_ptr() = default;
    maybe_shared_ptr(std::nullptr_t) {}
    maybe_shared_ptr(T* p) : entity_(p) {}
    maybe_shared_ptr(std::shared_ptr<T> p) : entity_(p.get()), shared_(std::move(p)) {}
    template<class U, class = std::enable_if_t<std::is_convertible_v<U*, T*>>> maybe_shared_ptr(std::shared_ptr<U> p) : entity_(p.get()), shared_(std::move(p)) {}
    template<class U> maybe_shared_ptr(maybe_shared_ptr<U> const& o) : entity_(o.get()), shared_(o.ownership()) {}
    T* get() const noexcept { return entity_; }
    T& operator*() const noexcept { return *entity_; }
    T* operator->() const noexcept { return entity_; }
    T& value() const noexcept { return *entity_; }
    explicit operator bool() const noexcept { return entity_ != nullptr; }
    bool has_value() const noexcept { return entity_ != nullptr; }
    std::shared_ptr<T> const& ownership() const noexcept { return shared_; }
    void reset() noexcept { entity_ = nullptr; shared_.reset(); }
private:
    T* entity_{};
    std::shared_ptr<T> shared_{};
};
template<class T> maybe_shared_ptr(T*) -> maybe_shared_ptr<T>;
template<class T> maybe_shared_ptr(std::shared_ptr<T>) -> maybe_shared_ptr<T>;
template<class T, class U> bool operator==(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) { return a.get() == b.get(); }
template<class T, class U> bool operator!=(maybe_shared_ptr<T> const& a, maybe_shared_ptr<U> const& b) { return a.get() != b.get(); }
template<class T> bool operator==(maybe_shared_ptr<T> const& a, std::nullptr_t) { return a.get() == nullptr; }
template<class T> bool operator!=(maybe_shared_ptr<T> const& a, std::nullptr_t) { return a.get() != nullptr; }
}
