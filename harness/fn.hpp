// Helpers of the functional harnesses: payload kinds, value categories, case enumeration.
#pragma once
#include "mc.hpp"
#include "track.hpp"
#include <opt/option.hpp>
#include <array>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>

namespace fn {
// ---- value categories ----
enum cat { LV, CLV, RV, CRV };
constexpr const char* cat_name[] = {"&", "const&", "&&", "const&&"};
template<cat C, class T> constexpr decltype(auto) as(T& x) noexcept {
    if constexpr (C == LV) return static_cast<T&>(x);
    else if constexpr (C == CLV) return static_cast<const T&>(x);
    else if constexpr (C == RV) return static_cast<T&&>(x);
    else return static_cast<const T&&>(x);
}
template<cat C, class T> using as_t = decltype(as<C>(std::declval<T&>()));   // the type of the stored object seen through category C
template<class F> void each_cat(F f) {
    f(std::integral_constant<cat, LV>{}); f(std::integral_constant<cat, CLV>{});
    f(std::integral_constant<cat, RV>{}); f(std::integral_constant<cat, CRV>{});
}
template<cat C> constexpr bool is_rv = C == RV || C == CRV;

// ---- instrumented payloads: every special member is counted; moved-from objects have v == 77 ----
struct log_t { int cc = 0, mc = 0, ca = 0, ma = 0, dt = 0, vc = 0; };
inline log_t lg;
inline void clear_log() { lg = log_t{}; }
template<int KIND> struct L { // KIND: 0 no traits, 1 traits, 2 traits + nested levels
    int v;
    static constexpr int GONE = 77;
    L() : v(0) {}
    L(int x) : v(x) { ++lg.vc; }
    L(const L& o) : v(o.v) { ++lg.cc; }
    L(L&& o) noexcept : v(o.v) { o.v = GONE; ++lg.mc; }
    L& operator=(const L& o) { v = o.v; ++lg.ca; return *this; }
    L& operator=(L&& o) noexcept { v = o.v; if (this != &o) o.v = GONE; ++lg.ma; return *this; }
    ~L() { ++lg.dt; }
    int plus(int x) { return v + x; }
    int cplus(int x) const { return v - x; }
    friend bool operator==(const L& a, const L& b) { return a.v == b.v; }
    friend bool operator!=(const L& a, const L& b) { return a.v != b.v; }
    friend bool operator<(const L& a, const L& b) { return a.v < b.v; }
};
using L0 = L<0>; using L1 = L<1>;
struct MO { int v; MO(int x) : v(x) {} MO(MO&& o) noexcept : v(o.v) { o.v = 77; } MO& operator=(MO&& o) noexcept { v = o.v; o.v = 77; return *this; } bool operator==(const MO& o) const { return v == o.v; } bool operator!=(const MO& o) const { return !(*this == o); } };
struct IM { int v; IM(int x) : v(x) {} IM(const IM&) = delete; IM& operator=(const IM&) = delete; bool operator==(const IM& o) const { return v == o.v; } bool operator!=(const IM& o) const { return !(*this == o); } };
struct PO { int v; PO(int x) : v(x) {} virtual ~PO() = default; bool operator==(const PO& o) const { return v == o.v; } bool operator!=(const PO& o) const { return !(*this == o); } };
// Overloads what generic code must not use: &, the comma, !, a conversion to bool, and functions found by ADL.
struct HO {
    int v; static constexpr int GONE = 77;
    HO(int x) : v(x) { ++lg.vc; }
    HO(const HO& o) : v(o.v) { ++lg.cc; }
    HO(HO&& o) noexcept : v(o.v) { o.v = GONE; ++lg.mc; }
    HO& operator=(const HO& o) { v = o.v; ++lg.ca; return *this; }
    HO& operator=(HO&& o) noexcept { v = o.v; if (static_cast<const volatile void*>(this) != static_cast<const volatile void*>(std::addressof(o))) o.v = GONE; ++lg.ma; return *this; }
    ~HO() { ++lg.dt; }
    HO* operator&() { return nullptr; }
    const HO* operator&() const { return nullptr; }
    HO& operator*() { return decoy(); }
    HO* operator->() { return std::addressof(decoy()); }
    bool has_value() const { return false; }
    void reset() { v = -9; }
    explicit operator bool() const { return false; }
    bool operator!() const { return false; }
    static HO& decoy() { static HO d(-55); return d; }
    friend bool operator==(const HO& a, const HO& b) { return a.v == b.v; }
    friend bool operator!=(const HO& a, const HO& b) { return a.v != b.v; }
    friend bool operator<(const HO& a, const HO& b) { return a.v < b.v; }
};
template<class X> int operator,(HO&, X&&) { std::abort(); }
template<class X> int operator,(const HO&, X&&) { std::abort(); }
inline void construct_at(HO*, ...) { std::abort(); }
template<class F> int invoke(F&&, HO&) { std::abort(); }
template<class F> int invoke(F&&, const HO&) { std::abort(); }
inline HO& get(HO&) { std::abort(); }
enum class EN : unsigned char { a, b, c, SENTINEL = 9 };
struct AG { int a; bool b; bool operator==(const AG& o) const { return a == o.a && b == o.b; } bool operator!=(const AG& o) const { return !(*this == o); } };
}
template<> struct opt::option_traits<fn::L1> {
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const fn::L1* p) noexcept { return p->v <= -100 && p->v > -103 ? std::uintmax_t(-100 - p->v) : std::uintmax_t(-1); }
    static void set_level(fn::L1* p, std::uintmax_t l) noexcept { p->v = -100 - int(l); }
};
namespace fn {
// ---- payload kinds ----
template<class T_> struct kind { using T = T_; static constexpr bool copyable = std::is_copy_constructible_v<T>, movable = std::is_move_constructible_v<T>; static constexpr bool logged = false; };
inline int pool[4] = {10, 20, 30, 40};
#define FN_KIND(id, Type, S, COUNT, ...) struct id : ::fn::kind<Type> { static constexpr const char* name = S; static constexpr int N = COUNT; static T make(int i) { __VA_ARGS__ } }
FN_KIND(k_int, int, "int", 2, return i * 5;);
FN_KIND(k_bool, bool, "bool", 2, return i != 0;);
FN_KIND(k_dbl, double, "double", 2, return i * 1.5;);
FN_KIND(k_ptr, int*, "int*", 2, return i ? &pool[i] : nullptr;);
FN_KIND(k_enum, EN, "enum with SENTINEL", 2, return i ? EN::b : EN::a;);
FN_KIND(k_str, std::string, "string", 2, return std::string(std::size_t(i * 40), 'q'););
FN_KIND(k_vec, std::vector<int>, "vector<int>", 2, return std::vector<int>(std::size_t(i * 3), 4););
FN_KIND(k_sv, std::string_view, "string_view", 2, return i ? std::string_view("abc") : std::string_view(););
FN_KIND(k_pair, decltype(std::pair<bool, std::string>{}), "pair<bool,string>", 2, return {i != 0, std::string(std::size_t(i * 40), 'p')};);
FN_KIND(k_tup, decltype(std::tuple<int, bool>{}), "tuple<int,bool>", 2, return {i, i != 0};);
FN_KIND(k_arr, decltype(std::array<bool, 2>{}), "array<bool,2>", 2, return {{i != 0, i == 0}};);
FN_KIND(k_agg, AG, "aggregate", 2, return AG{i, i != 0};);
FN_KIND(k_opt, opt::option<bool>, "option<bool>", 3, return i == 0 ? opt::option<bool>{} : opt::option<bool>{i == 2};);
FN_KIND(k_opti, opt::option<int>, "option<int>", 2, return i == 0 ? opt::option<int>{} : opt::option<int>{i};);
FN_KIND(k_po, PO, "polymorphic", 2, return PO(i););
FN_KIND(k_up, std::unique_ptr<int>, "unique_ptr", 2, return std::unique_ptr<int>(i ? new int(i) : nullptr););
FN_KIND(k_mo, MO, "move-only", 2, return MO(i););
FN_KIND(k_im, IM, "immovable", 2, return IM(i););
struct k_l0 : kind<L0> { static constexpr const char* name = "logged"; static constexpr int N = 2; static T make(int i) { return T(i); } static constexpr bool logged = true; };
struct k_l1 : kind<L1> { static constexpr const char* name = "logged with traits"; static constexpr int N = 2; static T make(int i) { return T(i); } static constexpr bool logged = true; };
struct k_ho : kind<HO> { static constexpr const char* name = "payload with hostile overloads"; static constexpr int N = 2; static T make(int i) { return T(i); } static constexpr bool logged = true; };
template<class K> bool is_value(const typename K::T& x, int i) {
    if constexpr (std::is_same_v<typename K::T, std::unique_ptr<int>>) return i ? (x && *x == i) : !x;
    else return x == K::make(i);
}
template<class... Ks> struct kinds { template<class F> static void each(F f) { (f(Ks{}), ...); } };
using copyable_kinds = kinds<k_int, k_bool, k_dbl, k_ptr, k_enum, k_str, k_vec, k_sv, k_pair, k_tup, k_arr, k_agg, k_opt, k_opti, k_po, k_l0, k_l1, k_ho>;
using movable_kinds = kinds<k_int, k_bool, k_dbl, k_ptr, k_enum, k_str, k_vec, k_sv, k_pair, k_tup, k_arr, k_agg, k_opt, k_opti, k_po, k_l0, k_l1, k_ho, k_up, k_mo>;
using all_kinds = kinds<k_int, k_bool, k_dbl, k_ptr, k_enum, k_str, k_vec, k_sv, k_pair, k_tup, k_arr, k_agg, k_opt, k_opti, k_po, k_l0, k_l1, k_ho, k_up, k_mo, k_im>;

// state -1 = empty, i = holds value i
template<class K> using opt_of = opt::option<typename K::T>;
template<class K, class F> decltype(auto) in_state(int s, F f) {
    if (s < 0) { opt_of<K> o; return f(o); }
    opt_of<K> o(std::in_place, K::make(s)); return f(o);
}
template<class K> void in_state_checked(const opt_of<K>& o, int s, const char* what) {
    ++mc::stats.checks;
    if (o.has_value() != (s >= 0)) { MC_CHECK(false, what); return; }
    if (s >= 0) MC_CHECK(is_value<K>(*o, s), what);
}
// A fresh option for every use: build() gives a prvalue for movable kinds.
template<class K> opt_of<K> build(int s) { if (s < 0) return opt_of<K>{}; return opt_of<K>(std::in_place, K::make(s)); }

// One configuration = one state of the enumerated space.
struct config {
    config(const char* a, const char* b = "", long long n = 0, long long m = 0) { ++mc::stats.states; mc::clear(); mc::push(a); if (*b) mc::push(b); mc::push("state", n); if (m) mc::push("variant", m); if (mc::stats.states % 97 == 5) mc::sample_trace(); }
    ~config() { ++mc::stats.traces; mc::clear(); }
};
inline void op(const char* s) { mc::push(s); ++mc::stats.transitions; }
#define OP(...) ::fn::op(#__VA_ARGS__)
template<class A, class B> constexpr bool same = std::is_same_v<A, B>;
}
