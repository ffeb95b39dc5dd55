#pragma once
#include <ostream>
#include <vector>
#include "object_acceptor.h"
namespace takatori::serializer {
class json_printer : public object_acceptor {
public:
    explicit json_printer(std::ostream& out) noexcept : out_(out) {}
    void integer(std::int64_t v) override { pre(); out_ << v; }
    void unsigned_integer(std::uint64_t v) override { pre(); out_ << v; }
    void real(double v) override { pre(); out_ << v; }
    void decimal(std::string_view v) override { pre(); out_ << v; }
    void boolean(bool v) override { pre(); out_ << (v ? "true" : "false"); }
    void string(std::string_view v) override { pre(); out_ << '"' << v << '"'; }
    void pointer(void const* v) override { pre(); out_ << v; }
    void struct_begin() override { pre(); out_ << '{'; st_.push_back(0); }
    void struct_end() override { st_.pop_back(); out_ << '}'; }
    void property_begin(std::string_view n) override { sep(); out_ << '"' << n << "\":"; st_.push_back(2); }
    void property_end() override { if (st_.back() == 2) out_ << "null"; st_.pop_back(); }
    void array_begin() override { pre(); out_ << '['; st_.push_back(0); }
    void array_end() override { st_.pop_back(); out_ << ']'; }
private:
    std::ostream& out_;
    std::vector<int> st_ {}; // 0: first element, 1: following, 2: property w/o value, 3: property w/ value
    void sep() { if (!st_.empty()) { if (st_.back() == 1) out_ << ','; if (st_.back() == 0) st_.back() = 1; } }
    void pre() { if (st_.empty()) return; if (st_.back() == 2) { st_.back() = 3; return; } sep(); }
};
}
