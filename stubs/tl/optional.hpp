// Stand-in for tl::optional on top of std::optional.
#pragma once
#include <optional>
namespace tl {
template <class T> using optional = std::optional<T>;
using std::make_optional;
using nullopt_t = std::nullopt_t;
inline constexpr nullopt_t nullopt = std::nullopt;
} // namespace tl
