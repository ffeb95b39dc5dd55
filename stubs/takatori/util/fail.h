#pragma once
#include <cstdlib>
namespace takatori::util {
[[noreturn]] inline void fail() noexcept { std::abort(); }
template<class M> [[noreturn]] inline void fail(M const&) noexcept { std::abort(); }
}
