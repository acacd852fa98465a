// A reference optional written from the standard's wording of std::optional (with LWG 3836).
#pragma once
#include <optional>
namespace ref {
template<class T> class optional;
template<class T> constexpr bool is_opt = false;
template<class T> constexpr bool is_opt<optional<T>> = true;
template<class T> using bare = std::remove_cv_t<std::remove_reference_t<T>>;
template<class T, class U> constexpr bool converts = std::is_constructible_v<T, optional<U>&> || std::is_constructible_v<T, const optional<U>&> || std::is_constructible_v<T, optional<U>> || std::is_constructible_v<T, const optional<U>>
    || std::is_convertible_v<optional<U>&, T> || std::is_convertible_v<const optional<U>&, T> || std::is_convertible_v<optional<U>, T> || std::is_convertible_v<const optional<U>, T>;
template<class T, class U> constexpr bool assigns = std::is_assignable_v<T&, optional<U>&> || std::is_assignable_v<T&, const optional<U>&> || std::is_assignable_v<T&, optional<U>> || std::is_assignable_v<T&, const optional<U>>;
template<class T> constexpr bool is_bool = std::is_same_v<std::remove_cv_t<T>, bool>;
template<class T, class U> constexpr auto ctor_value() { // lazily: the own type must not be examined
    if constexpr (std::is_same_v<bare<U>, optional<T>> || std::is_same_v<bare<U>, std::in_place_t> || (is_bool<T> && is_opt<bare<U>>)) return std::false_type{};
    else return std::bool_constant<std::is_constructible_v<T, U>>{};
}
template<class T, class U, class Q> constexpr auto ctor_opt() {
    if constexpr (std::is_same_v<T, U>) return std::false_type{};
    else if constexpr (!std::is_constructible_v<T, Q>) return std::false_type{};
    else if constexpr (is_bool<T>) return std::true_type{};
    else return std::bool_constant<!converts<T, U>>{};
}
template<class T, class U, class Q> constexpr auto assign_opt() {
    if constexpr (std::is_same_v<T, U>) return std::false_type{};
    else if constexpr (!std::is_constructible_v<T, Q> || !std::is_assignable_v<T&, Q>) return std::false_type{};
    else return std::bool_constant<!converts<T, U> && !assigns<T, U>>{};
}
template<class T, class U> constexpr auto assign_value() {
    if constexpr (std::is_same_v<bare<U>, optional<T>>) return std::false_type{};
    else return std::bool_constant<std::is_constructible_v<T, U> && std::is_assignable_v<T&, U>>{};
}
template<class T> class optional {
    std::optional<T> s;
    template<class> friend class optional;
public:
    optional() = default; optional(std::nullopt_t) {} optional(const optional&) = default; optional(optional&&) = default; optional& operator=(const optional&) = default; optional& operator=(optional&&) = default;
    template<class U = T, std::enable_if_t<decltype(ctor_value<T, U>())::value && std::is_convertible_v<U, T>, int> = 0> optional(U&& u) : s(std::in_place, std::forward<U>(u)) {}
    template<class U = T, std::enable_if_t<decltype(ctor_value<T, U>())::value && !std::is_convertible_v<U, T>, int> = 1> explicit optional(U&& u) : s(std::in_place, std::forward<U>(u)) {}
    template<class U, std::enable_if_t<decltype(ctor_opt<T, U, const U&>())::value && std::is_convertible_v<const U&, T>, int> = 0> optional(const optional<U>& o) { if (o.s) s.emplace(*o.s); }
    template<class U, std::enable_if_t<decltype(ctor_opt<T, U, const U&>())::value && !std::is_convertible_v<const U&, T>, int> = 1> explicit optional(const optional<U>& o) { if (o.s) s.emplace(*o.s); }
    template<class U, std::enable_if_t<decltype(ctor_opt<T, U, U>())::value && std::is_convertible_v<U, T>, int> = 0> optional(optional<U>&& o) { if (o.s) s.emplace(*std::move(o.s)); }
    template<class U, std::enable_if_t<decltype(ctor_opt<T, U, U>())::value && !std::is_convertible_v<U, T>, int> = 1> explicit optional(optional<U>&& o) { if (o.s) s.emplace(*std::move(o.s)); }
    template<class U = T, std::enable_if_t<decltype(assign_value<T, U>())::value, int> = 0> optional& operator=(U&& u) { if (s) *s = std::forward<U>(u); else s.emplace(std::forward<U>(u)); return *this; }
    template<class U, std::enable_if_t<decltype(assign_opt<T, U, const U&>())::value, int> = 0> optional& operator=(const optional<U>& o) { if (!o.s) s.reset(); else if (s) *s = *o.s; else s.emplace(*o.s); return *this; }
    template<class U, std::enable_if_t<decltype(assign_opt<T, U, U>())::value, int> = 0> optional& operator=(optional<U>&& o) { if (!o.s) s.reset(); else if (s) *s = *std::move(o.s); else s.emplace(*std::move(o.s)); return *this; }
    explicit operator bool() const { return bool(s); }
    bool has_value() const { return bool(s); } T& operator*() { return *s; } const T& operator*() const { return *s; }
    template<class... A> void put(A&&... a) { s.emplace(std::forward<A>(a)...); }
};
}
