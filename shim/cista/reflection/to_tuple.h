// Minimal stand-in for cista's aggregate reflection (up to 12 members).
#pragma once
#include <cstddef>
#include <tuple>
#include <type_traits>
#include <utility>

namespace cista {
namespace detail {
template <typename T, typename = void>
struct has_cista_members : std::false_type {};
template <typename T>
struct has_cista_members<T, std::void_t<decltype(std::declval<T>().cista_members())>> : std::true_type {};
template <typename T>
inline constexpr bool has_cista_members_v = has_cista_members<T>::value;

struct any { template <typename T> constexpr operator T&() const&; template <typename T> constexpr operator T&&() const&&; };
struct any_value { template <typename T> constexpr operator T() const; };
template <typename T, typename I, typename = void> struct constructible : std::false_type {};
template <std::size_t> using any_t = any_value;
template <typename T, std::size_t... I>
struct constructible<T, std::index_sequence<I...>, std::void_t<decltype(T{any_t<I>{}...})>> : std::true_type {};
template <typename T, std::size_t N>
inline constexpr bool constructible_v = constructible<T, std::make_index_sequence<N>>::value;
template <typename T, std::size_t N = 12>
constexpr std::size_t count() {
  if constexpr (N == 0) return 0;
  else if constexpr (constructible_v<T, N>) return N;
  else return count<T, N - 1>();
}
}  // namespace detail

template <typename T>
inline constexpr std::size_t arity_v = detail::count<std::remove_cvref_t<T>>();

template <typename T>
constexpr auto to_tuple(T&& t) {
  using U = std::remove_cvref_t<T>;
  if constexpr (detail::has_cista_members_v<U>) { return const_cast<U&>(t).cista_members(); }
  else {
    constexpr auto n = arity_v<T>;
    if constexpr (n == 0) { return std::tie(); }
    else if constexpr (n == 1) { auto& [a] = t; return std::tie(a); }
    else if constexpr (n == 2) { auto& [a, b] = t; return std::tie(a, b); }
    else if constexpr (n == 3) { auto& [a, b, c] = t; return std::tie(a, b, c); }
    else if constexpr (n == 4) { auto& [a, b, c, d] = t; return std::tie(a, b, c, d); }
    else if constexpr (n == 5) { auto& [a, b, c, d, e] = t; return std::tie(a, b, c, d, e); }
    else if constexpr (n == 6) { auto& [a, b, c, d, e, f] = t; return std::tie(a, b, c, d, e, f); }
    else if constexpr (n == 7) { auto& [a, b, c, d, e, f, g] = t; return std::tie(a, b, c, d, e, f, g); }
    else { auto& [a, b, c, d, e, f, g, h] = t; return std::tie(a, b, c, d, e, f, g, h); }
  }
}
}  // namespace cista
