#pragma once
#include <sstream>
#include <string>
#include <utility>
namespace takatori::util {
class string_builder {
public:
    struct to_string_t { explicit constexpr to_string_t() = default; };
    static constexpr to_string_t to_string {};
    string_builder() = default;
    [[nodiscard]] std::string str() const { return s_.str(); }
    [[nodiscard]] std::ostream& stream() { return s_; }
    template<class T> string_builder& operator<<(T&& v) & { s_ << std::forward<T>(v); return *this; }
    template<class T> string_builder&& operator<<(T&& v) && { s_ << std::forward<T>(v); return std::move(*this); }
    std::string operator<<(to_string_t) & { return s_.str(); }
    std::string operator<<(to_string_t const&) && { return s_.str(); }
private:
    std::ostringstream s_ {};
};
class debug_string_builder {
public:
    struct to_string_t { explicit constexpr to_string_t() = default; };
    static constexpr to_string_t to_string {};
    template<class T> debug_string_builder&& operator<<(T&& v) && { s_ << std::forward<T>(v); return std::move(*this); }
    template<class T> debug_string_builder& operator<<(T&& v) & { s_ << std::forward<T>(v); return *this; }
    std::string operator<<(to_string_t const&) && { return s_.str(); }
    std::string operator<<(to_string_t const&) & { return s_.str(); }
private:
    std::ostringstream s_ {};
};
}
