#pragma once
#include <cstddef>
#include <ostream>
#include <string>
#include <string_view>
#include <utility>
namespace takatori::document {
class position {
public:
    constexpr position() = default;
    constexpr position(std::size_t l, std::size_t c) noexcept : l_(l), c_(c) {}
    [[nodiscard]] constexpr std::size_t line() const noexcept { return l_; }
    [[nodiscard]] constexpr std::size_t column() const noexcept { return c_; }
    constexpr explicit operator bool() const noexcept { return l_ != 0; }
private:
    std::size_t l_ {}; std::size_t c_ {};
};
class document {
public:
    document() = default;
    virtual ~document() = default;
    [[nodiscard]] virtual std::string_view location() const noexcept = 0;
    [[nodiscard]] virtual std::string_view contents(std::size_t offset, std::size_t size) const noexcept = 0;
    [[nodiscard]] virtual std::size_t size() const noexcept = 0;
    [[nodiscard]] virtual position position_at(std::size_t) const noexcept { return {}; }
};
inline std::ostream& operator<<(std::ostream& o, document const& d) { return o << d.location(); }
}
#include "region.h"
