// Stand-ins for the parts of takatori (types, values, descriptors) that mizugaki uses.
// They give the compiler front-end declarations to type-check mizugaki against; they are not takatori.
#pragma once
#include <algorithm>
#include <any>
#include <array>
#include <chrono>
#include <cstdint>
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <string_view>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "document/region.h"
#include "document/basic_document.h"
#include "util/assertion.h"
#include "util/clonable.h"
#include "util/downcast.h"
#include "util/enum_set.h"
#include "util/enum_tag.h"
#include "util/exception.h"
#include "util/fail.h"
#include "util/finalizer.h"
#include "util/maybe_shared_ptr.h"
#include "util/optional_ptr.h"
#include "util/rvalue_ptr.h"
#include "util/string_builder.h"

namespace takatori::util {
template<class T> struct print_support {
    T const* p;
    explicit print_support(T const& v) noexcept : p(std::addressof(v)) {}
    friend std::ostream& operator<<(std::ostream& o, print_support v) { return o << *v.p; }
};
template<class T> print_support(T const&) -> print_support<T>;
template<class T> struct print_support<::takatori::util::optional_ptr<T>> {
    ::takatori::util::optional_ptr<T> p;
    explicit print_support(::takatori::util::optional_ptr<T> v) noexcept : p(v) {}
    friend std::ostream& operator<<(std::ostream& o, print_support v) { if (v.p) { return o << *v.p; } return o << "(null)"; }
};
template<class T> struct print_support<std::optional<T>> {
    std::optional<T> const* p;
    explicit print_support(std::optional<T> const& v) noexcept : p(std::addressof(v)) {}
    friend std::ostream& operator<<(std::ostream& o, print_support v) { if (*v.p) { return o << **v.p; } return o << "(nullopt)"; }
};
template<class T> struct print_support<std::vector<T>> {
    std::vector<T> const* p;
    explicit print_support(std::vector<T> const& v) noexcept : p(std::addressof(v)) {}
    friend std::ostream& operator<<(std::ostream& o, print_support v) { o << "["; for (auto&& e : *v.p) { o << print_support<std::decay_t<decltype(e)>>(e) << ","; } return o << "]"; }
};

template<class T, class C = T*>
class sequence_view {
public:
    using value_type = T; using size_type = std::size_t; using iterator = T*; using const_iterator = T*; using reference = T&;
    constexpr sequence_view() noexcept = default;
    constexpr sequence_view(T* b, T* e) noexcept : b_(b), e_(e) {}
    template<class V, class = decltype(std::declval<V&>().data()), class = std::enable_if_t<std::is_convertible_v<decltype(std::declval<V&>().data()), T*>>>
    sequence_view(V&& v) noexcept : b_(v.data()), e_(v.data() + v.size()) {} // NOLINT
    template<class I, class = decltype(*std::declval<I>()), class = void> sequence_view(I b, I e) noexcept : b_(std::addressof(*b)), e_(b_ + (e - b)) {}
    constexpr T* begin() const noexcept { return b_; }
    constexpr T* end() const noexcept { return e_; }
    constexpr T* data() const noexcept { return b_; }
    constexpr std::size_t size() const noexcept { return static_cast<std::size_t>(e_ - b_); }
    constexpr bool empty() const noexcept { return b_ == e_; }
    constexpr T& operator[](std::size_t i) const { return b_[i]; }
    T& at(std::size_t i) const { if (i >= size()) { throw std::out_of_range("sequence_view"); } return b_[i]; }
    constexpr T& front() const { return *b_; }
    constexpr T& back() const { return *(e_ - 1); }
    friend std::ostream& operator<<(std::ostream& o, sequence_view v) { o << "["; for (auto&& e : v) { o << e << ","; } return o << "]"; }
private:
    T* b_ {}; T* e_ {};
};

// a reference to an owned slot
template<class V> sequence_view(V&) -> sequence_view<std::remove_pointer_t<decltype(std::declval<V&>().data())>>;
template<class T>
class ownership_reference {
public:
    ownership_reference() = default;
    explicit ownership_reference(std::unique_ptr<T>& slot) noexcept : slot_(&slot) {}
    T& operator*() const noexcept { return **slot_; }
    T* operator->() const noexcept { return slot_->get(); }
    T& get() const noexcept { return **slot_; }
    optional_ptr<T> find() const noexcept { return optional_ptr<T> { slot_->get() }; }
    T& value() const { return **slot_; }
    bool has_value() const noexcept { return static_cast<bool>(*slot_); }
    explicit operator bool() const noexcept { return has_value(); }
    std::unique_ptr<T> set(std::unique_ptr<T> v) { std::swap(*slot_, v); return v; }
    void reset() { slot_->reset(); }
    std::unique_ptr<T> exchange(std::unique_ptr<T> v) { std::swap(*slot_, v); return v; }
private:
    std::unique_ptr<T>* slot_ {};
};

template<class T> std::unique_ptr<T> as_uptr(T&& v) { return clone_unique(std::move(v)); }

template<class T>
class reference_vector {
public:
    using size_type = std::size_t; using value_type = T; using pointer = T*;
    template<class V, class I>
    class iter {
    public:
        using difference_type = std::ptrdiff_t; using value_type = V; using pointer = V*; using reference = V&; using iterator_category = std::random_access_iterator_tag;
        iter() = default; explicit iter(I i) : i_(i) {}
        V& operator*() const { return **i_; } V* operator->() const { return i_->get(); }
        iter& operator++() { ++i_; return *this; } iter operator++(int) { auto r = *this; ++i_; return r; }
        iter& operator--() { --i_; return *this; }
        iter operator+(std::ptrdiff_t d) const { return iter(i_ + d); }
        std::ptrdiff_t operator-(iter o) const { return i_ - o.i_; }
        bool operator==(iter o) const { return i_ == o.i_; } bool operator!=(iter o) const { return i_ != o.i_; }
    private: I i_ {};
    };
    using iterator = iter<T, typename std::vector<std::unique_ptr<T>>::iterator>;
    using const_iterator = iter<T const, typename std::vector<std::unique_ptr<T>>::const_iterator>;
    reference_vector() = default;
    reference_vector(std::vector<std::unique_ptr<T>> v) : v_(std::move(v)) {} // NOLINT
    reference_vector(reference_vector const& o) { for (auto&& e : o.v_) { v_.push_back(clone_unique(e)); } }
    reference_vector(reference_vector&&) noexcept = default;
    reference_vector& operator=(reference_vector const& o) { reference_vector t { o }; v_ = std::move(t.v_); return *this; }
    reference_vector& operator=(reference_vector&&) noexcept = default;
    bool empty() const noexcept { return v_.empty(); } size_type size() const noexcept { return v_.size(); }
    void reserve(size_type n) { v_.reserve(n); } void clear() { v_.clear(); }
    T& operator[](size_type i) { return *v_[i]; } T const& operator[](size_type i) const { return *v_[i]; }
    T& at(size_type i) { return *v_.at(i); } T const& at(size_type i) const { return *v_.at(i); }
    T& front() { return *v_.front(); } T const& front() const { return *v_.front(); }
    T& back() { return *v_.back(); } T const& back() const { return *v_.back(); }
    iterator begin() { return iterator(v_.begin()); } iterator end() { return iterator(v_.end()); }
    const_iterator begin() const { return const_iterator(v_.begin()); } const_iterator end() const { return const_iterator(v_.end()); }
    T& push_back(std::unique_ptr<T> v) { v_.push_back(std::move(v)); return *v_.back(); }
    template<class U> U& emplace_back(std::unique_ptr<U> v) { auto& r = *v; v_.push_back(std::move(v)); return r; }
    template<class U, class... A> U& emplace_back(A&&... a) { auto p = std::make_unique<U>(std::forward<A>(a)...); auto& r = *p; v_.push_back(std::move(p)); return r; }
    ownership_reference<T> ownership(size_type i) { return ownership_reference<T> { v_[i] }; }
    ownership_reference<T> element_ownership(size_type i) { return ownership_reference<T> { v_[i] }; }
    ownership_reference<T> ownership(iterator i) { return ownership_reference<T> { v_[i - begin()] }; }
    std::vector<std::unique_ptr<T>> release_elements() { return std::move(v_); }
    std::unique_ptr<T> release_back() { auto r = std::move(v_.back()); v_.pop_back(); return r; }
private:
    std::vector<std::unique_ptr<T>> v_ {};
};
}

// ---------------------------------------------------------------- decimal (mpdecimal)
using mpd_ssize_t = std::int64_t;
#ifndef MPD_MAX_PREC
#define MPD_MAX_PREC 999999999999999999LL
#define MPD_MAX_EMAX 999999999999999999LL
#define MPD_MIN_EMIN (-999999999999999999LL)
#define MPD_IEEE_Invalid_operation 0x100U
#define MPD_Conversion_syntax 0x2U
#define MPD_Inexact 0x20U
#define MPD_Malloc_error 0x200U
#define MPD_ROUND_DOWN 1
#define MPD_ROUND_HALF_UP 4
#define MPD_ROUND_HALF_EVEN 6
#endif
namespace decimal {
inline constexpr unsigned DecRounded = 0x1000U;
class ValueError : public std::runtime_error { public: ValueError() : std::runtime_error("decimal") {} };
class Context {
public:
    Context(mpd_ssize_t = 0, mpd_ssize_t = 0, mpd_ssize_t = 0, int = 0, unsigned = 0, int = 0, int = 0) {}
    mpd_ssize_t prec() const { return 38; }
    unsigned status() const { return s_; }
    void clear_status() { s_ = 0; }
    void status(unsigned s) { s_ = s; }
    unsigned traps() const { return 0; }
    void traps(unsigned) {}
    void prec(mpd_ssize_t) {} void emax(mpd_ssize_t) {} void emin(mpd_ssize_t) {} void round(int) {} void clamp(int) {}
    void add_status(unsigned s) { s_ |= s; }
private: unsigned s_ {};
};
inline Context context {};
class Decimal {
public:
    Decimal() = default;
    explicit Decimal(std::int64_t v) : v_(v), fin_(true) { if (v < 0) { v_ = static_cast<std::uint64_t>(-v); neg_ = true; } }
    explicit Decimal(std::string const& s) { parse(s); }
    explicit Decimal(std::string const& s, Context& c) { parse(s); if (!fin_) { c.add_status(MPD_Conversion_syntax); } }
    static Decimal exact(std::string const& s, Context&) { return Decimal { s }; }
    bool isnormal(Context const&) const { return isnormal(); } std::string number_class(Context const&) const { return "class"; } Decimal coeff() const { auto r = *this; r.e_ = 0; return r; }
    bool isnormal() const { return fin_ && v_ != 0; }
    bool isnan() const { return !fin_; } bool isinfinite() const { return false; } bool isfinite() const { return fin_; }
    bool iszero() const { return fin_ && v_ == 0; } bool issigned() const { return neg_; } bool isspecial() const { return !fin_; }
    bool isinteger() const { return fin_ && e_ >= 0; }
    mpd_ssize_t exponent() const { return e_; } mpd_ssize_t digits() const { auto n = 1; for (auto t = v_; t >= 10; t /= 10) { ++n; } return n; } mpd_ssize_t adjexp() const { return digits() + e_ - 1; }
    int sign() const { return neg_ ? -1 : 1; }
    Decimal reduce(Context&) const { auto r = *this; while (r.v_ && r.v_ % 10 == 0) { r.v_ /= 10; ++r.e_; } return r; }
    Decimal reduce() const { Context c {}; return reduce(c); }
    Decimal minus() const { auto r = *this; r.neg_ = !neg_; return r; }
    Decimal minus(Context&) const { return minus(); } Decimal plus() const { return *this; } Decimal plus(Context&) const { return *this; }
    Decimal operator-() const { return minus(); }
    std::int64_t i64() const { auto d = ld(); if (!fin_ || d != static_cast<long double>(static_cast<std::int64_t>(d))) { throw ValueError {}; } return val(); } std::int32_t i32() const { return static_cast<std::int32_t>(val()); }
    std::uint64_t u64() const { return static_cast<std::uint64_t>(val()); }
    Decimal rescale(mpd_ssize_t, Context&) const { return *this; } Decimal rescale(mpd_ssize_t) const { return *this; }
    std::string to_sci(bool = true) const { return (neg_ ? "-" : "") + std::to_string(v_) + "E" + std::to_string(e_); }
    std::string format(char const*) const { return to_sci(); }
    friend bool operator==(Decimal const& a, Decimal const& b) { return a.cmp(b) == 0; } friend bool operator!=(Decimal const& a, Decimal const& b) { return a.cmp(b) != 0; }
    friend bool operator<(Decimal const& a, Decimal const& b) { return a.cmp(b) < 0; } friend bool operator<=(Decimal const& a, Decimal const& b) { return a.cmp(b) <= 0; }
    friend bool operator>(Decimal const& a, Decimal const& b) { return a.cmp(b) > 0; } friend bool operator>=(Decimal const& a, Decimal const& b) { return a.cmp(b) >= 0; }
    friend std::ostream& operator<<(std::ostream& o, Decimal const& d) { return o << d.to_sci(); }
    std::uint64_t coef() const { return v_; }
private:
    std::uint64_t v_ {}; mpd_ssize_t e_ {}; bool neg_ {}; bool fin_ {};
    long double ld() const { long double r = static_cast<long double>(v_); for (auto i = e_; i > 0; --i) { r *= 10; } for (auto i = e_; i < 0; ++i) { r /= 10; } return neg_ ? -r : r; }
    std::int64_t val() const { auto d = ld(); return static_cast<std::int64_t>(d); }
    int cmp(Decimal const& o) const { auto a = ld(); auto b = o.ld(); return a < b ? -1 : a > b ? 1 : 0; }
    void parse(std::string const& s) {
        std::size_t i = 0; if (i < s.size() && (s[i] == '+' || s[i] == '-')) { neg_ = s[i] == '-'; ++i; }
        bool dig = false; bool dot = false;
        for (; i < s.size(); ++i) {
            if (s[i] >= '0' && s[i] <= '9') { v_ = v_ * 10 + static_cast<std::uint64_t>(s[i] - '0'); dig = true; if (dot) { --e_; } }
            else if (s[i] == '.' && !dot) { dot = true; } else { break; }
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) { e_ += std::stoll(s.substr(i + 1)); i = s.size(); }
        fin_ = dig && i == s.size();
    }
};
}
namespace takatori::decimal {
class triple {
public:
    triple() = default;
    explicit triple(::decimal::Decimal v) : v_(v) {}
    explicit triple(std::int64_t v) : v_(v) {}
    triple(int, std::uint64_t, std::uint64_t c, std::int32_t e) : v_(std::to_string(c) + "E" + std::to_string(e)) {}
    operator ::decimal::Decimal() const { return v_; } // NOLINT
    std::int32_t sign() const { return v_.sign(); } std::uint64_t coefficient_low() const { return v_.coef(); } std::uint64_t coefficient_high() const { return 0; }
    std::int32_t exponent() const { return static_cast<std::int32_t>(v_.exponent()); }
    friend bool operator==(triple const& a, triple const& b) { return a.v_ == b.v_; } friend bool operator!=(triple const& a, triple const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, triple const& v) { return o << v.v_; }
private: ::decimal::Decimal v_ { std::string { "0" } };
};
}

// ---------------------------------------------------------------- datetime
namespace takatori::datetime {
class date { public: date() = default; date(std::int32_t y, std::uint32_t m, std::uint32_t d) : v_(y * 10000 + static_cast<int>(m) * 100 + static_cast<int>(d)) {}
    static std::uint32_t last_day_of_month(std::uint32_t y, std::uint32_t m) { return std::uint32_t { 31 } + (y + m) * 0; }
    bool operator==(date o) const { return v_ == o.v_; } friend std::ostream& operator<<(std::ostream& o, date d) { return o << d.v_; }
    private: int v_ {}; friend class time_point; };
class time_of_day { public: using time_unit = std::chrono::nanoseconds; time_of_day() = default; time_of_day(std::uint32_t h, std::uint32_t m, std::uint32_t s, time_unit ns = {}) : v_(((h * 60LL + m) * 60LL + s) * 1000000000LL + ns.count()) {}
    bool operator==(time_of_day o) const { return v_ == o.v_; } friend std::ostream& operator<<(std::ostream& o, time_of_day d) { return o << d.v_; }
    private: std::int64_t v_ {}; };
class time_point { public: time_point() = default; time_point(date d, time_of_day t) : d_(d), t_(t) {}
    bool operator==(time_point o) const { return d_ == o.d_ && t_ == o.t_ && z_ == o.z_; } friend std::ostream& operator<<(std::ostream& o, time_point d) { return o << d.d_ << d.t_; }
    template<class D> time_point& operator+=(D d) { z_ += std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return *this; } template<class D> time_point& operator-=(D d) { z_ -= std::chrono::duration_cast<std::chrono::nanoseconds>(d).count(); return *this; }
    template<class D> time_point operator-(D d) const { auto r = *this; r -= d; return r; } template<class D> time_point operator+(D d) const { auto r = *this; r += d; return r; }
    private: date d_ {}; time_of_day t_ {}; std::int64_t z_ {}; };
struct date_info { std::uint32_t year {}; std::uint32_t month {}; std::uint32_t day {}; operator date() const { return date { static_cast<std::int32_t>(year), month, day }; } };
struct time_info { std::uint32_t hour {}; std::uint32_t minute {}; std::uint32_t second {}; std::chrono::nanoseconds subsecond {}; operator time_of_day() const { return time_of_day { hour, minute, second, subsecond }; } };
struct zone_offset_info { bool plus { true }; std::uint32_t hour {}; std::uint32_t minute {}; operator std::chrono::minutes() const { auto v = std::chrono::minutes { hour * 60 + minute }; return plus ? v : -v; } };
struct datetime_info { date_info date {}; time_info time {}; std::optional<zone_offset_info> offset {}; };
template<class T>
class conversion_result {
public:
    conversion_result(T v) : v_(std::move(v)) {} // NOLINT
    conversion_result(std::string e) : e_(std::move(e)) {} // NOLINT
    bool is_success() const { return v_.has_value(); } bool is_error() const { return !v_; } explicit operator bool() const { return is_success(); }
    T const& value() const { return *v_; } std::string const& error() const { return e_; } T const& operator*() const { return *v_; } T const* operator->() const { return &*v_; }
private: std::optional<T> v_ {}; std::string e_ {};
};
inline conversion_result<date_info> parse_date(std::string_view s) { unsigned y, m, d; if (std::sscanf(std::string(s).c_str(), "%u-%u-%u", &y, &m, &d) == 3) { return date_info { y, m, d }; } return std::string { "bad date" }; }
inline conversion_result<time_info> parse_time(std::string_view s) { unsigned h, m, c; if (std::sscanf(std::string(s).c_str(), "%u:%u:%u", &h, &m, &c) == 3) { return time_info { h, m, c, {} }; } return std::string { "bad time" }; }
inline conversion_result<datetime_info> parse_datetime(std::string_view s) { unsigned y, mo, d, h = 0, m = 0, c = 0; char sg {}; unsigned zh {}, zm {}; int n = std::sscanf(std::string(s).c_str(), "%u-%u-%u%*[ T]%u:%u:%u%c%u:%u", &y, &mo, &d, &h, &m, &c, &sg, &zh, &zm); if (n >= 3) { datetime_info r { { y, mo, d }, { h, m, c, {} }, {} }; if (n == 9) { r.offset = zone_offset_info { sg == '+', zh, zm }; } return r; } return std::string { "bad datetime" }; }
inline conversion_result<zone_offset_info> parse_zone_offset(std::string_view) { return zone_offset_info {}; }
}

// ---------------------------------------------------------------- types
namespace takatori::type {
enum class type_kind { boolean, int1, int2, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, blob, clob, row_reference, array, record, table, unknown, row_id, declared, extension };
inline std::ostream& operator<<(std::ostream& o, type_kind k) { return o << static_cast<int>(k); }
enum class nullity_t {};
class data {
public:
    virtual ~data() = default;
    virtual type_kind kind() const noexcept = 0;
    virtual std::unique_ptr<data> do_clone() const = 0;
    std::unique_ptr<data> clone() const& { return do_clone(); }
    std::unique_ptr<data> clone() && { return do_clone(); }
    virtual bool equals(data const&) const = 0;
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { return o << "type(" << d.kind() << ")"; }
};
template<class D, type_kind K> class base : public data {
public:
    static constexpr type_kind tag = K;
    type_kind kind() const noexcept override { return K; }
    std::unique_ptr<data> do_clone() const override { return std::make_unique<D>(static_cast<D const&>(*this)); }
    std::unique_ptr<D> clone() const { return std::make_unique<D>(static_cast<D const&>(*this)); }
    bool equals(data const& o) const override { return static_cast<D const&>(*this).same(static_cast<D const&>(o)); }
    bool same(D const&) const { return true; }
};
class boolean : public base<boolean, type_kind::boolean> {};
class int1 : public base<int1, type_kind::int1> {};
class int2 : public base<int2, type_kind::int2> {};
class int4 : public base<int4, type_kind::int4> {};
class int8 : public base<int8, type_kind::int8> {};
class float4 : public base<float4, type_kind::float4> {};
class float8 : public base<float8, type_kind::float8> {};
class blob : public base<blob, type_kind::blob> {};
class clob : public base<clob, type_kind::clob> {};
class unknown : public base<unknown, type_kind::unknown> {};
class date : public base<date, type_kind::date> {};
struct varying_t { bool v { true }; constexpr explicit varying_t(bool b = true) : v(b) {} constexpr bool operator*() const { return v; } bool operator==(varying_t o) const { return v == o.v; } };
inline constexpr varying_t varying { true };
inline constexpr varying_t no_varying { false };
struct with_time_zone_t { bool v { true }; constexpr explicit with_time_zone_t(bool b = true) : v(b) {} constexpr operator bool() const { return v; } constexpr with_time_zone_t operator~() const { return with_time_zone_t { !v }; } };
inline constexpr with_time_zone_t with_time_zone { true };
template<class D, type_kind K> class sized : public base<D, K> {
public:
    using size_type = std::size_t;
    explicit sized(varying_t v, std::optional<size_type> l = {}) : v_(v.v), l_(l) {}
    explicit sized(std::optional<size_type> l) : l_(l) {}
    bool varying() const { return v_; } std::optional<size_type> length() const { return l_; }
    bool same(D const& o) const { return v_ == o.varying() && l_ == o.length(); }
private: bool v_ {}; std::optional<size_type> l_ {};
};
class character : public sized<character, type_kind::character> { public: using sized::sized; };
class octet : public sized<octet, type_kind::octet> { public: using sized::sized; };
class bit : public sized<bit, type_kind::bit> { public: using sized::sized; };
class decimal : public base<decimal, type_kind::decimal> {
public:
    using size_type = std::size_t;
    static constexpr size_type min_precision = 1; static constexpr size_type max_precision = 38;
    explicit decimal(std::optional<size_type> p = {}, std::optional<size_type> s = {}) : p_(p), s_(s) {}
    std::optional<size_type> precision() const { return p_; } std::optional<size_type> scale() const { return s_; }
    bool same(decimal const& o) const { return p_ == o.p_ && s_ == o.s_; }
private: std::optional<size_type> p_ {}; std::optional<size_type> s_ {};
};
template<class D, type_kind K> class timed : public base<D, K> {
public:
    timed() = default; explicit timed(with_time_zone_t z) : z_(z) {}
    bool with_time_zone() const { return z_; } bool same(D const& o) const { return z_ == o.with_time_zone(); }
private: bool z_ {};
};
class time_of_day : public timed<time_of_day, type_kind::time_of_day> { public: using timed::timed; };
class time_point : public timed<time_point, type_kind::time_point> { public: using timed::timed; };
class table_column {
public:
    table_column(std::string n, std::shared_ptr<data const> t) : n_(std::move(n)), t_(std::move(t)) {}
    template<class T, class = std::enable_if_t<std::is_base_of_v<data, T>>> table_column(std::string n, T const& t) : n_(std::move(n)), t_(t.clone()) {}
    std::string_view name() const { return n_; } data const& type() const { return *t_; } std::shared_ptr<data const> const& shared_type() const { return t_; }
private: std::string n_; std::shared_ptr<data const> t_;
};
class table : public base<table, type_kind::table> {
public:
    using column_type = table_column; using columns_type = std::vector<column_type>;
    explicit table(std::vector<column_type> c) : c_(std::move(c)) {}
    table(std::initializer_list<column_type> c) : c_(c) {}
    std::vector<column_type> const& columns() const { return c_; }
private: std::vector<column_type> c_;
};
}

// ---------------------------------------------------------------- values
namespace takatori::value {
enum class value_kind { boolean, int4, int8, float4, float8, decimal, character, octet, bit, date, time_of_day, time_point, datetime_interval, array, record, unknown, extension };
inline std::ostream& operator<<(std::ostream& o, value_kind k) { return o << static_cast<int>(k); }
class data {
public:
    virtual ~data() = default;
    virtual value_kind kind() const noexcept = 0;
    virtual std::unique_ptr<data> do_clone() const = 0;
    std::unique_ptr<data> clone() const& { return do_clone(); }
    std::unique_ptr<data> clone() && { return do_clone(); }
    virtual bool equals(data const&) const = 0;
    virtual std::ostream& print(std::ostream& o) const { return o; }
    friend bool operator==(data const& a, data const& b) { return a.kind() == b.kind() && a.equals(b); }
    friend bool operator!=(data const& a, data const& b) { return !(a == b); }
    friend std::ostream& operator<<(std::ostream& o, data const& d) { o << "value(" << d.kind() << ":"; return d.print(o) << ")"; }
};
template<class D, value_kind K, class E, class V = E> class base : public data {
public:
    static constexpr value_kind tag = K;
    using entity_type = E; using view_type = V;
    value_kind kind() const noexcept override { return K; }
    base() = default; explicit base(E v) : v_(std::move(v)) {}
    std::unique_ptr<data> do_clone() const override { return std::make_unique<D>(static_cast<D const&>(*this)); }
    std::unique_ptr<D> clone() const { return std::make_unique<D>(static_cast<D const&>(*this)); }
    bool equals(data const& o) const override { return v_ == static_cast<base const&>(o).v_; }
    std::ostream& print(std::ostream& o) const override { return o << v_; }
    V get() const { return v_; }
protected: E v_ {};
};
class boolean : public base<boolean, value_kind::boolean, bool> { public: using base::base; };
class int4 : public base<int4, value_kind::int4, std::int32_t> { public: using base::base; };
class int8 : public base<int8, value_kind::int8, std::int64_t> { public: using base::base; };
class float4 : public base<float4, value_kind::float4, float> { public: using base::base; };
class float8 : public base<float8, value_kind::float8, double> { public: using base::base; };
class decimal : public base<decimal, value_kind::decimal, ::takatori::decimal::triple> { public: using base::base; explicit decimal(::decimal::Decimal v) : base(::takatori::decimal::triple { v }) {} explicit decimal(std::int64_t v) : base(::takatori::decimal::triple { v }) {} };
class character : public base<character, value_kind::character, std::string, std::string_view> { public: using base::base; explicit character(std::string_view v) : base(std::string(v)) {} explicit character(char const* v) : base(std::string(v)) {} };
class octet : public base<octet, value_kind::octet, std::string, std::string_view> { public: using base::base; explicit octet(std::string_view v) : base(std::string(v)) {} explicit octet(char const* v) : base(std::string(v)) {} };
class date : public base<date, value_kind::date, ::takatori::datetime::date> { public: using base::base; template<class... A> explicit date(std::int32_t y, A... a) : base(::takatori::datetime::date(y, a...)) {} };
class time_of_day : public base<time_of_day, value_kind::time_of_day, ::takatori::datetime::time_of_day> { public: using base::base; };
class time_point : public base<time_point, value_kind::time_point, ::takatori::datetime::time_point> { public: using base::base; };
enum class unknown_kind { null, default_ };
inline std::ostream& operator<<(std::ostream& o, unknown_kind k) { return o << static_cast<int>(k); }
class unknown : public base<unknown, value_kind::unknown, unknown_kind> { public: explicit unknown(unknown_kind k = unknown_kind::null) : base(k) {} };
class octet_result { public: octet_result(octet v) : v_(std::move(v)) {} octet_result(std::string e) : e_(std::move(e)) {} // NOLINT
    bool is_success() const { return v_.has_value(); } bool is_error() const { return !v_; } explicit operator bool() const { return is_success(); } octet const& value() const { return *v_; } octet& value() { return *v_; } std::string const& error() const { return e_; }
private: std::optional<octet> v_ {}; std::string e_ {}; };
inline octet_result parse_octet(std::string_view s) { if (s.size() % 2) { return std::string { "odd" }; } std::string r; for (std::size_t i = 0; i + 1 < s.size(); i += 2) { auto h = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; r.push_back(static_cast<char>(h(s[i]) * 16 + h(s[i + 1]))); } return octet { r }; }
struct octet_parse_result { bool ok {}; std::string e {}; explicit operator bool() const { return ok; } bool has_value() const { return ok; } std::string const& error() const { return e; } };
inline octet_parse_result parse_octet(std::string_view s, std::string& d) { auto r = parse_octet(s); if (!r) { return { false, r.error() }; } d.append(r.value().get()); return { true, {} }; }
}

// ---------------------------------------------------------------- descriptors
namespace takatori::descriptor {
enum class descriptor_kind { variable, relation, function, aggregate_function, declared_type, schema, storage };
template<descriptor_kind K> class element {
public:
    using entity_type = void;
    element() = default;
    explicit element(std::shared_ptr<void const> e) : e_(std::move(e)) {}
    element(std::shared_ptr<void const> e, int tag, std::string l) : e_(std::move(e)), t_(tag), l_(std::move(l)) {}
    std::shared_ptr<void const> const& shared_entity() const noexcept { return e_; }
    void const* entity() const noexcept { return e_.get(); }
    int entity_tag() const noexcept { return t_; } std::string const& label() const { return l_; }
    ::takatori::document::region& region() noexcept { return r_; } ::takatori::document::region const& region() const noexcept { return r_; }
    friend bool operator==(element const& a, element const& b) { return a.e_ == b.e_; } friend bool operator!=(element const& a, element const& b) { return a.e_ != b.e_; }
    friend std::ostream& operator<<(std::ostream& o, element const& e) { return o << "descriptor(" << e.l_ << ")"; }
private: std::shared_ptr<void const> e_ {}; int t_ {}; std::string l_ {}; ::takatori::document::region r_ {};
};
class variable : public element<descriptor_kind::variable> { public: using element::element; };
class relation : public element<descriptor_kind::relation> { public: using element::element; };
class function : public element<descriptor_kind::function> { public: using element::element; };
class aggregate_function : public element<descriptor_kind::aggregate_function> { public: using element::element; };
class schema : public element<descriptor_kind::schema> { public: using element::element; };
class storage : public element<descriptor_kind::storage> { public: using element::element; };
}
template<> struct std::hash<::takatori::descriptor::variable> { std::size_t operator()(::takatori::descriptor::variable const& v) const noexcept { return std::hash<void const*> {}(v.entity()); } };
