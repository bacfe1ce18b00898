// Analysed only: the behaviour of the container as one thread sees it.
#pragma once
#include <cstddef>
#include <map>
#include <utility>
namespace tbb {
template<class K, class V, class... Rest> class concurrent_hash_map {
public:
    using entity = std::map<K, V>;
    using key_type = K;
    using mapped_type = V;
    using value_type = typename entity::value_type;
    using size_type = std::size_t;
    using iterator = typename entity::iterator;
    using const_iterator = typename entity::const_iterator;
    class const_accessor {
    public:
        const_accessor() = default;
        bool empty() const { return ! holds_; }
        void release() { holds_ = false; }
        value_type const& operator*() const { return *at_; }
        value_type const* operator->() const { return &*at_; }
    private:
        friend class concurrent_hash_map;
        iterator at_{};
        bool holds_{false};
    };
    class accessor {
    public:
        accessor() = default;
        bool empty() const { return ! holds_; }
        void release() { holds_ = false; }
        value_type& operator*() const { return *at_; }
        value_type* operator->() const { return &*at_; }
    private:
        friend class concurrent_hash_map;
        iterator at_{};
        bool holds_{false};
    };
    concurrent_hash_map() = default;
    std::size_t size() const { return values_.size(); }
    bool empty() const { return values_.empty(); }
    void clear() { values_.clear(); }
    std::size_t count(K const& k) const { return values_.count(k); }
    template<class A> bool find(A& a, K const& k) const {
        auto& m = const_cast<entity&>(values_);
        auto it = m.find(k);
        a.holds_ = it != m.end();
        if (a.holds_) { a.at_ = it; }
        return a.holds_;
    }
    bool insert(accessor& a, K const& k) { return placed(a, k, V{}); }
    bool insert(const_accessor& a, K const& k) { return placed(a, k, V{}); }
    bool insert(accessor& a, value_type const& v) { return placed(a, v.first, v.second); }
    bool insert(const_accessor& a, value_type const& v) { return placed(a, v.first, v.second); }
    bool insert(value_type const& v) { return values_.emplace(v.first, v.second).second; }
    template<class X, class Y> bool emplace(X&& k, Y&& v) { return values_.emplace(std::forward<X>(k), std::forward<Y>(v)).second; }
    template<class X, class Y> bool emplace(accessor& a, X&& k, Y&& v) { return placed(a, std::forward<X>(k), std::forward<Y>(v)); }
    template<class X, class Y> bool emplace(const_accessor& a, X&& k, Y&& v) { return placed(a, std::forward<X>(k), std::forward<Y>(v)); }
    bool erase(K const& k) { return values_.erase(k) != 0; }
    bool erase(accessor& a) { values_.erase(a.at_->first); a.holds_ = false; return true; }
    bool erase(const_accessor& a) { values_.erase(a.at_->first); a.holds_ = false; return true; }
    iterator begin() { return values_.begin(); }
    iterator end() { return values_.end(); }
    const_iterator begin() const { return values_.begin(); }
    const_iterator end() const { return values_.end(); }
private:
    template<class A, class X, class Y> bool placed(A& a, X&& k, Y&& v) {
        auto r = values_.emplace(std::forward<X>(k), std::forward<Y>(v));
        a.at_ = r.first;
        a.holds_ = true;
        return r.second;
    }
    entity values_{};
};
}
