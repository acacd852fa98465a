// C16: every (target, source) pair of a matrix of types: availability and implicitness of conversions and what they do,
// against a reference optional written from the standard's wording (with LWG 3836).
#include "fn.hpp"
#include "ref_optional.hpp"
#ifndef PART
    #define PART 0
    #define PARTS 1
#endif
namespace opt { template<class T, class... A> void put_(option<T>& o, A&&... a) { o.emplace(std::forward<A>(a)...); } }
namespace ref { template<class T, class... A> void put_(optional<T>& o, A&&... a) { o.put(std::forward<A>(a)...); } }
namespace {
using fn::cat; using fn::LV; using fn::CLV; using fn::RV; using fn::CRV; using fn::as; using fn::as_t; using fn::cat_name; using fn::each_cat; using fn::config;
// every type is written once for the library and once for the reference
template<template<class> class O> struct U {
    struct tagged { int v; const char* how; };                                       // how: which operation gave the value
    struct imp : tagged { imp(int x) : tagged{x, "imp(int)"} {} };
    struct expl : tagged { explicit expl(int x) : tagged{x, "expl(int)"} {} };
    struct both : tagged { both(const int& x) : tagged{x, "both(const int&)"} {} both(int&& x) : tagged{x, "both(int&&)"} { x = -1; } both& operator=(const int& x) { this->v = x; this->how = "= const int&"; return *this; } both& operator=(int&& x) { this->v = x; this->how = "= int&&"; x = -1; return *this; } };
    struct lv_only : tagged { lv_only(int& x) : tagged{x, "lv_only(int&)"} {} };
    struct rv_only : tagged { rv_only(int&& x) : tagged{x, "rv_only(int&&)"} { x = -1; } rv_only(const int&) = delete; };
    struct expl_impl : tagged { explicit expl_impl(int x) : tagged{x, "expl_impl(int)"} {} expl_impl(long x) : tagged{int(x), "expl_impl(long)"} {} };
    struct no_assign : tagged { no_assign(int x) : tagged{x, "no_assign(int)"} {} no_assign& operator=(int) = delete; no_assign(const no_assign&) = default; no_assign& operator=(const no_assign&) = default; };
    struct assign_any : tagged { explicit assign_any(int x) : tagged{x, "assign_any(int)"} {} assign_any(const assign_any&) = default; assign_any& operator=(const assign_any&) = default; template<class X, std::enable_if_t<!std::is_same_v<ref::bare<X>, assign_any>, int> = 0> assign_any& operator=(X&&) { this->v = 55; this->how = "= any"; return *this; } };
    struct from_any : tagged { template<class X, std::enable_if_t<!std::is_same_v<ref::bare<X>, from_any>, int> = 0> from_any(X&&) : tagged{66, "from_any(any)"} {} };
    struct from_any_expl : tagged { template<class X, std::enable_if_t<!std::is_same_v<ref::bare<X>, from_any_expl>, int> = 0> explicit from_any_expl(X&&) : tagged{67, "from_any_expl(any)"} {} };
    struct from_opt : tagged { from_opt(const O<int>& o) : tagged{o.has_value() ? *o : -7, "from_opt(const O<int>&)"} {} };
    struct from_opt_rv : tagged { explicit from_opt_rv(O<int>&& o) : tagged{o.has_value() ? *o : -7, "from_opt_rv(O<int>&&)"} {} };
    struct from_int_and_opt : tagged { from_int_and_opt(int x) : tagged{x, "(int)"} {} from_int_and_opt(const O<int>& o) : tagged{o.has_value() ? *o : -7, "(const O<int>&)"} {} from_int_and_opt& operator=(const O<int>& o) { this->v = o.has_value() ? *o : -8; this->how = "= const O<int>&"; return *this; } };
    struct assign_from_opt : tagged { assign_from_opt(int x) : tagged{x, "(int)"} {} assign_from_opt& operator=(int x) { this->v = x; this->how = "= int"; return *this; } assign_from_opt& operator=(const O<int>& o) { this->v = o.has_value() ? *o : -8; this->how = "= const O<int>&"; return *this; } };
    struct conv_int : tagged { explicit conv_int(char, int x) : tagged{x, "conv_int"} {} operator int() const { return this->v; } };
    struct conv_int_rv : tagged { explicit conv_int_rv(char, int x) : tagged{x, "conv_int_rv"} {} operator int() && { int r = this->v; this->v = -1; return r; } };
    struct conv_int_expl : tagged { explicit conv_int_expl(char, int x) : tagged{x, "conv_int_expl"} {} explicit operator int() const { return this->v; } };
    struct conv_opt : tagged { explicit conv_opt(char, int x) : tagged{x, "conv_opt"} {} operator O<int>() const { O<int> r; if (this->v) put_(r, this->v + 100); return r; } };
    struct conv_bool : tagged { explicit conv_bool(char, int x) : tagged{x, "conv_bool"} {} explicit operator bool() const { return this->v > 1; } };
    struct move_only : tagged { move_only(int x) : tagged{x, "move_only(int)"} {} move_only(move_only&& o) noexcept : tagged{o.v, "moved"} { o.v = -1; } move_only& operator=(move_only&& o) noexcept { this->v = o.v; this->how = "= moved"; o.v = -1; return *this; } };
    struct base : tagged { explicit base(char, int x) : tagged{x, "base"} {} }; struct derived : base { explicit derived(char c, int x) : base(c, x) {} };
    enum class en : unsigned { a, b, c }; enum old : unsigned char { oa, ob, oc };
    using nested = O<int>; using nested2 = O<O<int>>;
    template<int N> struct at;
};
template<class T> struct id { using type = T; };
#define TYPES(X) X(0, int) X(1, bool) X(2, long) X(3, double) X(4, unsigned char) X(5, std::string) X(6, const char*) X(7, std::string_view) X(8, int*) X(9, const int*) X(10, void*) X(11, std::unique_ptr<typename V::derived>) X(12, std::unique_ptr<typename V::base>) \
    X(13, std::shared_ptr<typename V::base>) X(14, std::vector<int>) X(15, typename V::imp) X(16, typename V::expl) X(17, typename V::both) X(18, typename V::lv_only) X(19, typename V::rv_only) X(20, typename V::expl_impl) X(21, typename V::no_assign) X(22, typename V::assign_any) X(23, typename V::from_any) \
    X(24, typename V::from_any_expl) X(25, typename V::from_opt) X(26, typename V::from_opt_rv) X(27, typename V::from_int_and_opt) X(28, typename V::assign_from_opt) X(29, typename V::conv_int) X(30, typename V::conv_int_rv) X(31, typename V::conv_int_expl) X(32, typename V::conv_opt) X(33, typename V::conv_bool) \
    X(34, typename V::move_only) X(35, typename V::base) X(36, typename V::derived) X(37, typename V::en) X(38, typename V::old) X(39, std::nullptr_t) X(40, const int) X(41, typename V::nested) X(42, typename V::nested2)
constexpr int COUNT = 43;
template<template<class> class O, int N> auto type_at() { using V = U<O>; (void)sizeof(V);
#define TYPE_CASE(i, ...) if constexpr (N == i) return id<__VA_ARGS__>{}; else
    TYPES(TYPE_CASE) return id<void>{}; }
template<template<class> class O, int N> using type = typename decltype(type_at<O, N>())::type;
#define TYPE_NAME(i, ...) #__VA_ARGS__,
const char* const type_names[] = {TYPES(TYPE_NAME)};
int objs[3] = {1, 2, 3};
// the value number i (1 or 2) of every type
template<class T> T* dummy();
template<template<class> class O, int N> type<O, N> make(int i) {
    using T = std::remove_cv_t<type<O, N>>;
    if constexpr (N == 41 || N == 42) { T o; if constexpr (N == 41) { if (i > 1) put_(o, i); } else { O<int> in; if (i > 1) put_(in, i); put_(o, in); } return o; }
    else if constexpr (std::is_same_v<T, std::string>) return std::string(std::size_t(20 * i), 's'); else if constexpr (std::is_same_v<T, const char*>) return i == 1 ? "c1" : "c2 longer"; else if constexpr (std::is_same_v<T, std::string_view>) return i == 1 ? "v1" : "v2 longer";
    else if constexpr (N == 8 || N == 9 || N == 10) return &objs[i]; else if constexpr (N == 11 || N == 12) return T(new typename T::element_type('c', i)); else if constexpr (N == 13) return std::make_shared<typename T::element_type>('c', i);
    else if constexpr (N == 14) return std::vector<int>(std::size_t(i * 3), i); else if constexpr (N == 18 || N == 19 || N == 17) { int k = i; if constexpr (N == 18) return T(k); else return T(std::move(k)); }
    else if constexpr (N == 25 || N == 26) { O<int> o; put_(o, i); return T(std::move(o)); } else if constexpr (N >= 29 && N <= 33) return T('c', i); else if constexpr (N == 35 || N == 36) return T('c', i); else if constexpr (N == 39) return nullptr;
    else if constexpr (N == 1) return i == 2; else return T(i);
}
// a description which does not depend on the option template
template<class T> auto show(const T& x, int) -> decltype(void(x.how), std::string()) { return std::to_string(x.v) + x.how; }
std::string show(const std::string& x, int) { return "s" + x; }
std::string show(const std::string_view& x, int) { return "s" + std::string(x); }
std::string show(const char* const& x, int) { return std::string("c") + x; }
std::string show(const std::vector<int>& x, int) { std::string r = "["; for (int i : x) r += std::to_string(i) + ","; return r; }
template<class T> std::string show(const std::unique_ptr<T>& x, int) { return x ? "u" + show(*x, 0) : "null"; }
template<class T> std::string show(const std::shared_ptr<T>& x, int) { return x ? "u" + show(*x, 0) : "null"; }
std::string show(std::nullptr_t, int) { return "nullptr"; }
template<class T> std::enable_if_t<std::is_arithmetic_v<T> || std::is_enum_v<T>, std::string> show(const T& x, int) { return std::to_string(double(x)); }
template<class T> std::enable_if_t<std::is_pointer_v<T>, std::string> show(const T& x, long) { return "p" + std::to_string(static_cast<const char*>(static_cast<const void*>(x)) - reinterpret_cast<const char*>(objs)); }
template<class T> std::string show(const opt::option<T>& x, int);
template<class T> std::string show(const ref::optional<T>& x, int);
template<class T> std::string show(const opt::option<T>& x, int) { return x.has_value() ? "<" + show(*x, 0) + ">" : "empty"; }
template<class T> std::string show(const ref::optional<T>& x, int) { return x.has_value() ? "<" + show(*x, 0) + ">" : "empty"; }

// everything that can be observed of the conversions from expressions of type E to O<T>
template<class OT, class E> constexpr int available() { return (std::is_constructible_v<OT, E> ? 1 : 0) | (std::is_convertible_v<E, OT> ? 2 : 0) | (std::is_assignable_v<OT&, E> ? 4 : 0); }
template<class OT, class E, class Fill> std::string behave(Fill fill, int target_state, bool explicit_, bool assign) {
    using S = ref::bare<E>; S src = fill(std::integral_constant<int, 0>{}); std::string r;
    if (assign) { if constexpr (std::is_assignable_v<OT&, E>) { OT o = fill(std::integral_constant<int, 1>{}); (void)target_state; auto& back = (o = static_cast<E&&>(src)); r = show(o, 0) + (std::addressof(back) == std::addressof(o) ? "" : " another object returned"); } }
    else if (explicit_) { if constexpr (std::is_constructible_v<OT, E>) { OT o(static_cast<E&&>(src)); r = show(o, 0); } }
    else { if constexpr (std::is_convertible_v<E, OT>) { OT o = static_cast<E&&>(src); r = show(o, 0); } }
    return r + " from " + show(src, 0);
}
template<template<class> class O, int T, int S, bool OPT> struct fill_of { // source state -1: empty option, 1, 2: value; target likewise
    int s, t; using OT = O<type<O, T>>;
    auto operator()(std::integral_constant<int, 0>) const { if constexpr (OPT) { O<type<O, S>> o; if (s > 0) put_(o, make<O, S>(s)); return o; } else return make<O, S>(s); }
    OT operator()(std::integral_constant<int, 1>) const { OT o; if (t > 0) put_(o, make<O, T>(t)); return o; }
};
std::string mask(int m) { return std::string(m & 1 ? "constructible " : "") + (m & 2 ? "implicit " : "") + (m & 4 ? "assignable" : ""); }
template<int T, int S, bool OPT> void pair() {
    char name[200]; std::snprintf(name, sizeof name, "option<%s> from %s%s%s", type_names[T], OPT ? "option<" : "", type_names[S], OPT ? ">" : ""); mc::set_ctx(name);
    using L = opt::option<type<opt::option, T>>; using R = ref::optional<type<ref::optional, T>>;
    using LS = std::conditional_t<OPT, opt::option<type<opt::option, S>>, type<opt::option, S>>; using RS = std::conditional_t<OPT, ref::optional<type<ref::optional, S>>, type<ref::optional, S>>;
    each_cat([&](auto c_) { constexpr cat C = c_.value; using LE = as_t<C, LS>; using RE = as_t<C, RS>; config cf("conversion", cat_name[C]); OP(traits);
        constexpr int l = available<L, LE>(), r = available<R, RE>();
        if constexpr (l != r) { mc::fail(std::string("conversion from ") + cat_name[C] + " is " + mask(l) + " but should be " + mask(r), "availability"); }
        else if constexpr (l != 0 && !(S == 39 && T >= 5 && T <= 7)) {
            for (int s = OPT ? 0 : 1; s <= 2; ++s) for (int t = 0; t <= 2; ++t) for (int how = 0; how < 3; ++how) {
                if (how < 2 && t) continue;
                const int bit = how == 0 ? 1 : how == 1 ? 2 : 4; if (!(l & bit)) continue;
                config cf2("conversion", cat_name[C], s, t); mc::push(how == 0 ? "construct" : how == 1 ? "implicit" : "assign"); OP(convert);
                if constexpr (std::is_copy_constructible_v<std::remove_const_t<LS>> || std::is_move_constructible_v<std::remove_const_t<LS>>) {
                    std::string a = behave<L, LE>(fill_of<opt::option, T, S, OPT>{s, t}, t, how == 0, how == 2), b = behave<R, RE>(fill_of<ref::optional, T, S, OPT>{s, t}, t, how == 0, how == 2);
                    ++mc::stats.checks; if (a != b) mc::fail(std::string(how == 2 ? "assignment" : "construction") + " from " + cat_name[C] + " gives another result", "got " + a + ", expected " + b);
                }
            }
        } });
}
template<int T, int... S> void row(std::integer_sequence<int, S...>) { ((pair<T, S, false>(), pair<T, S, true>()), ...); }
template<int T> void each_target() { if constexpr (T < COUNT) { row<T>(std::make_integer_sequence<int, COUNT>{}); each_target<T + PARTS>(); } }
}
int main() { mc::init(); each_target<PART>(); return mc::finish(); }
