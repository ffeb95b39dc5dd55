#pragma once
#include "document.h"
namespace takatori::document {
class region {
public:
    constexpr region() = default;
    region(::takatori::document::document const& d, std::size_t b, std::size_t e) noexcept : d_(&d), b_(b), e_(e) {}
    [[nodiscard]] ::takatori::document::document const& source() const { return *d_; }
    [[nodiscard]] std::size_t begin() const noexcept { return b_; }
    [[nodiscard]] std::size_t end() const noexcept { return e_; }
    [[nodiscard]] position first_position() const { return d_ ? d_->position_at(b_) : position {}; }
    [[nodiscard]] position last_position() const { return d_ ? d_->position_at(e_) : position {}; }
    explicit operator bool() const noexcept { return d_ != nullptr; }
    friend std::ostream& operator<<(std::ostream& o, region const& r) { return o << r.b_ << ".." << r.e_; }
private:
    ::takatori::document::document const* d_ {}; std::size_t b_ {}; std::size_t e_ {};
};
}
