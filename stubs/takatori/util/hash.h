#pragma once
#include <cstddef>
#include <functional>
namespace takatori::util { template<class... A> std::size_t hash(A const&... a) noexcept { std::size_t r = 0; ((r = r * 31 + std::hash<A> {}(a)), ...); return r; } }
