#pragma once
#include <functional>
#include <utility>
namespace takatori::util {
class finalizer {
public:
    finalizer() = default;
    finalizer(std::function<void()> f) : f_(std::move(f)) {} // NOLINT
    ~finalizer() { dispose(); }
    finalizer(finalizer const&) = delete;
    finalizer& operator=(finalizer const&) = delete;
    finalizer(finalizer&& o) noexcept : f_(std::exchange(o.f_, {})) {}
    finalizer& operator=(finalizer&& o) noexcept { dispose(); f_ = std::exchange(o.f_, {}); return *this; }
    void dispose() { if (f_) { auto f = std::exchange(f_, {}); f(); } }
    void cancel() noexcept { f_ = {}; }
    explicit operator bool() const noexcept { return static_cast<bool>(f_); }
private:
    std::function<void()> f_ {};
};
}
