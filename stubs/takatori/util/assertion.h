#pragma once
#include <cstdlib>
#include <boost/assert.hpp>
namespace takatori::util {
inline constexpr void assert_(bool b) { if (!b) { std::abort(); } }
}
