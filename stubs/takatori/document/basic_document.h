#pragma once
#include "document.h"
namespace takatori::document {
class basic_document : public document {
public:
    basic_document(std::string location, std::string contents) noexcept : l_(std::move(location)), c_(std::move(contents)) {}
    explicit basic_document(std::string contents) noexcept : c_(std::move(contents)) {}
    [[nodiscard]] std::string_view location() const noexcept override { return l_; }
    [[nodiscard]] std::string_view contents(std::size_t o, std::size_t s) const noexcept override { if (o >= c_.size()) return {}; return std::string_view { c_ }.substr(o, s); }
    [[nodiscard]] std::size_t size() const noexcept override { return c_.size(); }
private:
    std::string l_; std::string c_;
};
}
