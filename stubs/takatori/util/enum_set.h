#pragma once
#include <bitset>
#include <cstdint>
#include <initializer_list>
#include <iterator>
#include <ostream>
#include <type_traits>
namespace takatori::util {
template<class E, E Min, E Max>
class enum_set {
public:
    using value_type = E;
    using size_type = std::size_t;
    static constexpr E min_value = Min;
    static constexpr E max_value = Max;
    static_assert(std::is_enum_v<E>);
    static constexpr std::size_t bits = static_cast<std::size_t>(Max) - static_cast<std::size_t>(Min) + 1;
    constexpr enum_set() noexcept = default;
    constexpr enum_set(std::initializer_list<E> l) noexcept { for (auto e : l) { insert(e); } }
    template<class... A, class = std::enable_if_t<(... && std::is_same_v<A, E>)>>
    constexpr enum_set(E a, A... rest) noexcept { insert(a); (insert(rest), ...); } // NOLINT
    [[nodiscard]] constexpr bool empty() const noexcept { return size() == 0; }
    [[nodiscard]] constexpr size_type size() const noexcept { size_type n = 0; for (auto b : v_) { n += b ? 1 : 0; } return n; }
    [[nodiscard]] constexpr bool contains(E e) const noexcept { return v_[idx(e)]; }
    [[nodiscard]] constexpr bool operator[](E e) const noexcept { return contains(e); }
    constexpr enum_set& insert(E e) noexcept { v_[idx(e)] = true; return *this; }
    constexpr enum_set& erase(E e) noexcept { v_[idx(e)] = false; return *this; }
    enum_set& operator|=(enum_set const& o) noexcept { *this = *this | o; return *this; }
    enum_set& operator&=(enum_set const& o) noexcept { *this = *this & o; return *this; }
    enum_set& operator|=(E e) noexcept { return insert(e); }
    enum_set& operator+=(enum_set const& o) noexcept { return *this |= o; }
    enum_set& operator-=(enum_set const& o) noexcept { for (std::size_t i = 0; i < bits; ++i) { v_[i] = v_[i] && !o.v_[i]; } return *this; }
    constexpr void clear() noexcept { for (auto& b : v_) { b = false; } }
    class iterator {
    public:
        using difference_type = std::ptrdiff_t; using value_type = E; using pointer = E const*; using reference = E;
        using iterator_category = std::forward_iterator_tag;
        constexpr iterator() noexcept = default;
        constexpr iterator(enum_set const* s, std::size_t i) noexcept : s_(s), i_(i) { skip(); }
        constexpr E operator*() const noexcept { return static_cast<E>(static_cast<std::size_t>(Min) + i_); }
        constexpr iterator& operator++() noexcept { ++i_; skip(); return *this; }
        constexpr iterator operator++(int) noexcept { auto r = *this; ++*this; return r; }
        constexpr bool operator==(iterator o) const noexcept { return i_ == o.i_; }
        constexpr bool operator!=(iterator o) const noexcept { return i_ != o.i_; }
    private:
        enum_set const* s_ {}; std::size_t i_ {};
        constexpr void skip() noexcept { while (i_ < bits && !s_->v_[i_]) { ++i_; } }
    };
    using const_iterator = iterator;
    [[nodiscard]] constexpr iterator begin() const noexcept { return { this, 0 }; }
    [[nodiscard]] constexpr iterator end() const noexcept { return { this, bits }; }
    [[nodiscard]] constexpr bool operator==(enum_set const& o) const noexcept { for (std::size_t i = 0; i < bits; ++i) { if (v_[i] != o.v_[i]) return false; } return true; }
    [[nodiscard]] constexpr bool operator!=(enum_set const& o) const noexcept { return !(*this == o); }
    friend constexpr enum_set operator|(enum_set a, enum_set const& b) noexcept { for (std::size_t i = 0; i < bits; ++i) { a.v_[i] = a.v_[i] || b.v_[i]; } return a; }
    friend enum_set operator-(enum_set a, enum_set const& b) noexcept { a -= b; return a; }
    friend constexpr enum_set operator&(enum_set a, enum_set const& b) noexcept { for (std::size_t i = 0; i < bits; ++i) { a.v_[i] = a.v_[i] && b.v_[i]; } return a; }
    friend std::ostream& operator<<(std::ostream& out, enum_set const& s) { out << "{"; bool c = false; for (auto e : s) { if (c) out << ", "; c = true; out << e; } return out << "}"; }
private:
    bool v_[bits] {};
    static constexpr std::size_t idx(E e) noexcept { return static_cast<std::size_t>(e) - static_cast<std::size_t>(Min); }
};
}
