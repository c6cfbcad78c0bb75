#pragma once
// iterators of C++20 views that are no C++17 iterators: the checked containers of libstdc++ 13 have no range check for them
namespace __gnu_debug { template<class I, class T> constexpr bool __valid_range_aux(I, I, T) { return true; } }
#include "vp_random.hpp"
