// C16, wrappers around options: a payload which is itself constructible, convertible or assignable from an option of the
// source. Every combination of how it accepts the four value categories of the option, against the reference optional.
#include "fn.hpp"
#include "ref_optional.hpp"
#ifndef PART
    #define PART 0
    #define PARTS 1
#endif
namespace opt { template<class T, class... A> void put_(option<T>& o, A&&... a) { o.emplace(std::forward<A>(a)...); } }
namespace ref { template<class T, class... A> void put_(optional<T>& o, A&&... a) { o.put(std::forward<A>(a)...); } }
using fn::cat; using fn::LV; using fn::CLV; using fn::RV; using fn::CRV; using fn::as_t; using fn::cat_name; using fn::each_cat; using fn::config;
namespace {
struct src { int v; };
// kind of acceptance per category: 0 no, 1 implicit, 2 explicit, 3 convertible but not constructible (ambiguous)
template<class X, class O> constexpr int cat_of = std::is_same_v<X, O&> ? 0 : std::is_same_v<X, const O&> ? 1 : std::is_same_v<X, O> ? 2 : std::is_same_v<X, const O> ? 3 : -1;
constexpr int kind(int code, int c) { return c < 0 ? 0 : (code >> (2 * c)) & 3; }
// CTOR: 4 x 2 bits; ASG: 4 bits; VAL: bit 0 explicit from src, bit 1 assignable from src
template<template<class> class O, int CTOR, int ASG, int VAL> struct W {
    int v = 0; const char* how = "default";
    W(const W&) = default; W& operator=(const W&) = default;
    template<class X, std::enable_if_t<std::is_same_v<ref::bare<X>, src> && !(VAL & 1), int> = 0> W(X&& x) : v(x.v), how("implicit from the value") {}
    template<class X, std::enable_if_t<std::is_same_v<ref::bare<X>, src> && (VAL & 1), int> = 1> explicit W(X&& x) : v(x.v), how("explicit from the value") {}
    template<class X, std::enable_if_t<std::is_same_v<ref::bare<X>, src> && (VAL & 2), int> = 0> W& operator=(X&& x) { v = x.v; how = "assigned the value"; return *this; }
    template<class X, std::enable_if_t<kind(CTOR, cat_of<X, O<src>>) == 1 || kind(CTOR, cat_of<X, O<src>>) == 3, int> = 2> W(X&& x) : v(x.has_value() ? 100 + (*x).v : 99), how("from the option") {}
    template<class X, std::enable_if_t<kind(CTOR, cat_of<X, O<src>>) == 2 || kind(CTOR, cat_of<X, O<src>>) == 3, int> = 3> explicit W(X&& x) : v(x.has_value() ? 100 + (*x).v : 99), how("explicitly from the option") {}
    template<class X, std::enable_if_t<cat_of<X, O<src>> >= 0 && ((ASG >> (cat_of<X, O<src>> < 0 ? 0 : cat_of<X, O<src>>)) & 1), int> = 2> W& operator=(X&& x) { v = x.has_value() ? 200 + (*x).v : 199; how = "assigned the option"; return *this; }
};
template<class OT, class E> constexpr int available() { return (std::is_constructible_v<OT, E> ? 1 : 0) | (std::is_convertible_v<E, OT> ? 2 : 0) | (std::is_assignable_v<OT&, E> ? 4 : 0); }
template<class OT, class OS, cat C> void run(int how, int s, int t, char* out, std::size_t n) {
    using E = as_t<C, OS>; OS x; if (s) put_(x, src{s}); 
    auto show = [&](OT& o) { if (o.has_value()) std::snprintf(out, n, "%d %s", (*o).v, (*o).how); else std::snprintf(out, n, "empty"); };
    if constexpr (std::is_constructible_v<OT, E>) if (how == 0) { OT o(static_cast<E&&>(x)); show(o); }
    if constexpr (std::is_convertible_v<E, OT>) if (how == 1) { OT o = static_cast<E&&>(x); show(o); }
    if constexpr (std::is_assignable_v<OT&, E>) if (how == 2) { OT o; if (t) put_(o, src{t}); o = static_cast<E&&>(x); show(o); }
}
template<int CTOR, int ASG, int VAL> void one() {
    using L = opt::option<W<opt::option, CTOR, ASG, VAL>>; using R = ref::optional<W<ref::optional, CTOR, ASG, VAL>>; using LS = opt::option<src>; using RS = ref::optional<src>;
    char name[120]; std::snprintf(name, sizeof name, "payload accepting options: construct %d%d%d%d, assign %d%d%d%d, value %d", CTOR & 3, CTOR >> 2 & 3, CTOR >> 4 & 3, CTOR >> 6 & 3, ASG & 1, ASG >> 1 & 1, ASG >> 2 & 1, ASG >> 3 & 1, VAL); mc::set_ctx(name);
    ++mc::stats.states;
    each_cat([&](auto c_) { constexpr cat C = c_.value; constexpr int l = available<L, as_t<C, LS>>(), r = available<R, as_t<C, RS>>(); ++mc::stats.checks; mc::stats.transitions += 3;
        if constexpr (l != r) { config cf("availability", cat_name[C]); mc::fail(std::string("availability of conversions from ") + cat_name[C], "constructible/implicit/assignable bits are " + std::to_string(l) + " but should be " + std::to_string(r)); }
        else if constexpr (l != 0) for (int how = 0; how < 3; ++how) for (int s = 0; s < 2; ++s) for (int t = 0; t < (how == 2 ? 2 : 1); ++t) {
            char a[80] = "", b[80] = ""; config cf(how == 0 ? "construct" : how == 1 ? "implicit" : "assign", cat_name[C], s, t); OP(convert);
            run<L, LS, C>(how, s * 5, t * 6, a, sizeof a); run<R, RS, C>(how, s * 5, t * 6, b, sizeof b);
            ++mc::stats.checks; if (std::strcmp(a, b)) mc::fail(std::string("result of the conversion from ") + cat_name[C], std::string("got ") + a + ", expected " + b);
        } });
}
template<int VAL, int... C> void ctors(std::integer_sequence<int, C...>) { (one<C * PARTS + PART, 0, VAL>(), ...); }
template<int VAL, int CTOR, int... A> void assigns(std::integer_sequence<int, A...>) { (one<CTOR, A + 1, VAL>(), ...); }
}
int main() {
    mc::init();
    ctors<2>(std::make_integer_sequence<int, 256 / PARTS>{}); ctors<3>(std::make_integer_sequence<int, 256 / PARTS>{});
    if constexpr (PART == 0) { assigns<2, 0>(std::make_integer_sequence<int, 15>{}); assigns<3, 0>(std::make_integer_sequence<int, 15>{}); assigns<0, 0>(std::make_integer_sequence<int, 15>{}); one<0, 0, 0>(); one<0, 0, 1>(); }
    return mc::finish();
}
