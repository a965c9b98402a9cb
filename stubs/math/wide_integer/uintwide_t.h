// Stand-in for math::wide_integer::int128_t on top of the compiler's __int128.
#pragma once
#include <limits>
namespace math { namespace wide_integer {
using int128_t = __int128;
using uint128_t = unsigned __int128;
} } // namespace math::wide_integer
