#pragma once
#include "cista/reflection/to_tuple.h"

namespace cista {
template <typename T, typename Fn>
constexpr void for_each_field(T& t, Fn&& fn) {
  std::apply([&](auto&... args) { (fn(args), ...); }, to_tuple(t));
}
template <typename T, typename Fn>
constexpr void for_each_field(Fn&& fn) {
  T t{};
  for_each_field(t, std::forward<Fn>(fn));
}
}  // namespace cista
