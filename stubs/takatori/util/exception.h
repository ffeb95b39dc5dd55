#pragma once
#include <stdexcept>
#include <utility>
namespace takatori::util {
template<class T> [[noreturn]] void throw_exception(T&& e) { throw std::forward<T>(e); }
}
