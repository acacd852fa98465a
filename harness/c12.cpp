// C12: every comparison over every pair of states, against std::optional and against a payload with unrelated operators.
#include "fn.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <map>
using namespace fn;
using opt::none;
template<int I> struct O6 { };
#define OPS(X) X(0, ==, "==") X(1, !=, "!=") X(2, <, "<") X(3, <=, "<=") X(4, >, ">") X(5, >=, ">=")
#define DEF(i, o, s) template<> struct O6<i> { static constexpr const char* name = s; template<class A, class B> static constexpr auto apply(const A& a, const B& b) -> decltype(a o b) { return a o b; } };
OPS(DEF)
#undef DEF
template<class F> void each_op(F f) { f(std::integral_constant<int, 0>{}); f(std::integral_constant<int, 1>{}); f(std::integral_constant<int, 2>{}); f(std::integral_constant<int, 3>{}); f(std::integral_constant<int, 4>{}); f(std::integral_constant<int, 5>{}); }
template<int I, class A, class B, class = void> constexpr bool has = false;
template<int I, class A, class B> constexpr bool has<I, A, B, std::void_t<decltype(O6<I>::apply(std::declval<const A&>(), std::declval<const B&>()))>> = true;

template<class T> opt::option<T> mo(const std::vector<T>& v, int i) { return i < 0 ? opt::option<T>() : opt::option<T>(std::in_place, v[std::size_t(i)]); }
template<class T> std::optional<T> so(const std::vector<T>& v, int i) { return i < 0 ? std::optional<T>() : std::optional<T>(std::in_place, v[std::size_t(i)]); }
inline int expect_none(int op, bool left_engaged, bool right_engaged) { // as 0/1 compared
    const int a = left_engaged, b = right_engaged; switch (op) { case 0: return a == b; case 1: return a != b; case 2: return a < b; case 3: return a <= b; case 4: return a > b; default: return a >= b; }
}
template<class A, class B> void pairs(const char* name, const std::vector<A>& va, const std::vector<B>& vb) {
    mc::set_ctx(name);
    for (int i = -1; i < int(va.size()); ++i) for (int j = -1; j < int(vb.size()); ++j) {
        config cf("pair", "", i, j + 1); const auto a = mo(va, i); const auto b = mo(vb, j); const auto sa = so(va, i); const auto sb = so(vb, j); auto ma = a; auto mb = b;
        each_op([&](auto n) { constexpr int N = n; using C = O6<N>; if constexpr (has<N, std::optional<A>, std::optional<B>>) {
            mc::push(C::name); ++mc::stats.transitions; const bool want = C::apply(sa, sb);
            MC_CHECK((std::is_convertible_v<decltype(C::apply(a, b)), bool>), "comparison gives a bool");
            MC_CHECK(bool(C::apply(a, b)) == want, "option op option"); MC_CHECK(bool(C::apply(ma, mb)) == want, "option op option (not const)");
            if constexpr (!opt::is_option_v<A> && !opt::is_option_v<B>) { if (j >= 0) MC_CHECK(bool(C::apply(a, vb[std::size_t(j)])) == bool(C::apply(sa, vb[std::size_t(j)])), "option op value"); if (i >= 0) MC_CHECK(bool(C::apply(va[std::size_t(i)], b)) == bool(C::apply(va[std::size_t(i)], sb)), "value op option"); }
            mc::pop();
        } });
        MC_CHECK(a.has_value() == (i >= 0) && b.has_value() == (j >= 0), "comparison changed an operand");
    }
}
template<class A> void with_none(const char* name, const std::vector<A>& va) {
    mc::set_ctx("none", name);
    for (int i = -1; i < int(va.size()); ++i) { config cf("none", "", i); const auto a = mo(va, i); auto m = a; each_op([&](auto n) { constexpr int N = n; using C = O6<N>; mc::push(C::name); ++mc::stats.transitions;
        MC_CHECK((same<decltype(C::apply(a, none)), bool> && same<decltype(C::apply(none, a)), bool>), "comparison with none gives bool"); MC_CHECK(noexcept(a == none) && noexcept(none == a) && noexcept(a < none) && noexcept(none >= a), "comparison with none is noexcept");
        MC_CHECK(C::apply(a, none) == bool(expect_none(N, i >= 0, false)) && C::apply(m, none) == bool(expect_none(N, i >= 0, false)), "option op none"); MC_CHECK(C::apply(none, a) == bool(expect_none(N, false, i >= 0)), "none op option"); mc::pop(); }); }
}
template<class A> void homogeneous(const char* name, const std::vector<A>& v) { pairs<A, A>(name, v, v); with_none<A>(name, v); }
// nested: map option nests to optional nests
template<class T> struct twin { using type = T; static const T& of(const T& t) { return t; } };
template<class T> struct twin<opt::option<T>> { using type = std::optional<typename twin<T>::type>; static type of(const opt::option<T>& o) { return o ? type(std::in_place, twin<T>::of(*o)) : type(); } };
template<class A, class B> void nested(const char* name, const std::vector<A>& va, const std::vector<B>& vb) {
    mc::set_ctx(name);
    for (std::size_t i = 0; i < va.size(); ++i) for (std::size_t j = 0; j < vb.size(); ++j) { config cf("nested", "", int(i), int(j)); const auto sa = twin<A>::of(va[i]); const auto sb = twin<B>::of(vb[j]);
        each_op([&](auto n) { constexpr int N = n; using C = O6<N>; mc::push(C::name); ++mc::stats.transitions; MC_CHECK(bool(C::apply(va[i], vb[j])) == bool(C::apply(sa, sb)), "nested comparison"); mc::pop(); }); }
}
// ---- a payload whose six operators are unrelated and observed ----
struct W { int v; static inline int calls, which; static inline const W *l, *r; };
static int mask; // bit op*4 + l*2 + r
struct truth { bool b; operator bool() const { return b; } };
#define WDEF(i, o, s) inline truth operator o(const W& a, const W& b) { ++W::calls; W::which = i; W::l = &a; W::r = &b; return {bool(mask >> (a.v * 2 + b.v) & 1)}; }
OPS(WDEF)
#undef WDEF
template<> struct opt::option_traits<W> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const W* p) noexcept { return p->v <= -1 && p->v >= -2 ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); } static void set_level(W* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } };
struct V : W {}; // no traits of its own: flag
template<class T> void unrelated(const char* name) {
    mc::set_ctx("unrelated operators", name);
    for (int m = 0; m < 16; ++m) for (int i = -1; i < 2; ++i) for (int j = -1; j < 2; ++j) {
        config cf("table", "", m, i * 3 + j + 9); mask = m; T ti, tj; ti.v = i; tj.v = j; opt::option<T> a, b; if (i >= 0) a = ti; if (j >= 0) b = tj; const auto& ca = a; const auto& cb = b;
        each_op([&](auto n) { constexpr int N = n; using C = O6<N>; mc::push(C::name); ++mc::stats.transitions; const bool both = i >= 0 && j >= 0;
            auto chk = [&](bool got, bool want, const W* l, const W* r, bool called, const char* w) { MC_CHECK(got == want, w); MC_CHECK(W::calls == called, "payload operator called exactly when both sides have a value"); if (W::calls) { MC_CHECK(W::which == N, "payload operator of the same kind"); MC_CHECK(W::l == l && W::r == r, "operands in order"); } W::calls = 0; };
            W::calls = 0; const bool bit = both && (m >> (i * 2 + j) & 1);
            chk(C::apply(ca, cb), both ? bit : bool(expect_none(N, i >= 0, j >= 0)), ca.ptr_or_null(), cb.ptr_or_null(), both, "option op option");
            if (j >= 0) chk(C::apply(ca, tj), i >= 0 ? bit : bool(expect_none(N, false, true)), ca.ptr_or_null(), &tj, i >= 0, "option op value");
            if (i >= 0) chk(C::apply(ti, cb), j >= 0 ? bit : bool(expect_none(N, true, false)), &ti, cb.ptr_or_null(), j >= 0, "value op option");
            opt::option<T&> ra, rb; if (a) ra = *a; if (b) rb = *b; chk(C::apply(ra, rb), both ? bit : bool(expect_none(N, i >= 0, j >= 0)), ca.ptr_or_null(), cb.ptr_or_null(), both, "references compare their referents"); chk(C::apply(ra, cb), both ? bit : bool(expect_none(N, i >= 0, j >= 0)), ca.ptr_or_null(), cb.ptr_or_null(), both, "reference against value option");
            chk(C::apply(ra, none), bool(expect_none(N, i >= 0, false)), nullptr, nullptr, false, "option op none"); chk(C::apply(none, cb), bool(expect_none(N, false, j >= 0)), nullptr, nullptr, false, "none op option"); mc::pop(); });
    }
}
// availability
struct only_eq { int v; bool operator==(const only_eq& o) const { return v == o.v; } };
struct only_lt { int v; bool operator<(const only_lt& o) const { return v < o.v; } };
struct nothing { };
struct X1 { int v; }; struct Y1 { int v; };
inline bool operator==(X1 a, Y1 b) { return a.v == b.v; } inline bool operator<(X1 a, Y1 b) { return a.v < b.v; } inline bool operator>=(Y1 a, X1 b) { return a.v >= b.v; }
enum class plain_enum { a, b, c };
int main() {
    mc::init();
#if PART == 0
    const double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
    homogeneous<double>("double", {-inf, -1.5, -0.0, 0.0, 2.5, inf, nan, -nan, std::numeric_limits<double>::denorm_min()}); homogeneous<float>("float", {-std::numeric_limits<float>::infinity(), -0.0f, 0.0f, 1.f, std::numeric_limits<float>::quiet_NaN()}); homogeneous<long double>("long double", {-0.0L, 0.0L, 1.L, std::numeric_limits<long double>::quiet_NaN()});
    homogeneous<int>("int", {-2147483647 - 1, -1, 0, 1, 2147483647}); homogeneous<bool>("bool", {false, true}); homogeneous<unsigned char>("unsigned char", {0, 1, 2, 254, 255}); homogeneous<std::string>("string", {"", "a", "ab", std::string(40, 'z'), std::string("a\0b", 3)});
    homogeneous<std::string_view>("string_view", {std::string_view(), "", "a", "ab"}); static int arr[3]; homogeneous<int*>("pointer", {&arr[0], &arr[1], &arr[2]}); homogeneous<plain_enum>("enum", {plain_enum::a, plain_enum::b, plain_enum::c}); homogeneous<EN>("enum with SENTINEL", {EN::a, EN::b, EN::c});
    homogeneous<std::vector<int>>("vector", {{}, {1}, {1, 2}, {2}}); homogeneous<std::pair<bool, int>>("pair", {{false, 1}, {false, 2}, {true, 0}}); homogeneous<std::tuple<int, bool>>("tuple", {{1, false}, {1, true}, {2, false}}); homogeneous<std::array<bool, 2>>("array", {{{false, true}}, {{true, false}}, {{true, true}}});
    homogeneous<std::map<int, int>>("map", {{}, {{1, 2}}, {{1, 3}}}); homogeneous<std::shared_ptr<int>>("shared_ptr", {nullptr, std::make_shared<int>(1), std::make_shared<int>(1)}); homogeneous<only_eq>("== only", {{1}, {2}}); homogeneous<only_lt>("< only", {{1}, {2}}); with_none<nothing>("no operators", {{}}); homogeneous<std::complex<double>>("complex", {{0., 1.}, {1., 0.}, {nan, 0.}});
    homogeneous<int X1::*>("member pointer", {&X1::v}); homogeneous<AG>("aggregate", {{1, true}, {1, false}, {2, true}});
#elif PART == 1
    const double nan = std::numeric_limits<double>::quiet_NaN();
    pairs<int, long>("int/long", {-1, 0, 1}, {-1, 0, 1, 1L << 40}); pairs<int, double>("int/double", {-1, 0, 1}, {-1., 0.5, 1., nan}); pairs<double, bool>("double/bool", {0., 1., nan}, {false, true}); pairs<bool, int>("bool/int", {false, true}, {0, 1, 2}); pairs<char, int>("char/int", {'a', 'b'}, {97, 98, 99}); pairs<int, unsigned>("int/unsigned", {-1, 1}, {1u, 4294967295u});
    pairs<std::string, const char*>("string/char*", {"", "a", "b"}, {"", "a", "c"}); pairs<std::string_view, std::string>("string_view/string", {"", "a", "b"}, {"", "a", "c"}); pairs<X1, Y1>("== and < one way", {{1}, {2}}, {{1}, {2}, {3}}); pairs<Y1, X1>(">= the other way", {{1}, {2}}, {{1}, {2}, {3}});
    { static int a[2]; pairs<int*, const int*>("int*/const int*", {a, a + 1}, {a, a + 1}); pairs<int*, void*>("int*/void*", {a, a + 1}, {a, a + 1}); }
    using ob = opt::option<bool>; using oi = opt::option<int>; using oob = opt::option<ob>; using ooi = opt::option<oi>; using ooob = opt::option<oob>; using od = opt::option<double>;
    std::vector<ob> vb{ob(), ob(false), ob(true)}; std::vector<oi> vi{oi(), oi(0), oi(1), oi(2)}; std::vector<od> vd{od(), od(0.), od(nan), od(1.)};
    std::vector<oob> vbb{oob(), oob(std::in_place), oob(false), oob(true)}; std::vector<ooi> vii{ooi(), ooi(std::in_place), ooi(0), ooi(1)}; std::vector<ooob> vbbb{ooob(), ooob(std::in_place), ooob(oob(std::in_place)), ooob(oob(true))}; std::vector<opt::option<od>> vdd{{}, opt::option<od>(std::in_place), opt::option<od>(nan), opt::option<od>(1.)};
    nested("option<bool>^1", vb, vb); nested("option<bool>^2", vbb, vbb); nested("option<bool>^3", vbbb, vbbb); nested("option<int>^2", vii, vii); nested("option<double>^2", vdd, vdd); nested("bool^1/int^1", vb, vi); nested("bool^2/int^2", vbb, vii); nested("int^1/double^1", vi, vd); nested("int^2/double^2", vii, vdd);
    nested("bool^2/bool^1", vbb, vb); nested("bool^1/bool^2", vb, vbb); nested("int^2/int^1", vii, vi); nested("bool^3/bool^1", vbbb, vb); nested("bool^1/bool^3", vb, vbbb); nested("bool^3/bool^2", vbbb, vbb); nested("int^2/bool^1", vii, vb);
    { std::vector<int> iv{0, 1, 2}; nested("int^2/int", vii, iv); nested("int/int^2", iv, vii); nested("int^1/int", vi, iv); nested("int/int^1", iv, vi); nested("bool^3/int", vbbb, iv); nested("int/bool^3", iv, vbbb); }
    for (auto& x : vbb) { config cf("nested with none"); MC_CHECK((x == none) == !x.has_value() && (none < x) == x.has_value(), "nested option against none"); }
    unrelated<W>("traits"); unrelated<V>("flag");
    mc::set_ctx("availability"); { config cf("availability"); using opt::option; using N = nothing; using E = only_eq; using Lt = only_lt;
        each_op([&](auto n) { constexpr int I = n; MC_CHECK((has<I, option<N>, opt::none_t> && has<I, opt::none_t, option<N>>), "comparison with none always available"); MC_CHECK((!has<I, option<N>, option<N>> && !has<I, option<N>, N> && !has<I, N, option<N>>), "comparison unavailable without a payload operator"); });
        MC_CHECK((has<0, option<E>, option<E>> && !has<2, option<E>, option<E>> && !has<4, option<E>, option<E>> && has<0, option<E>, E> && has<0, E, option<E>> && !has<2, option<E>, E>), "available exactly as the payload's operator"); MC_CHECK((has<2, option<Lt>, option<Lt>> && !has<0, option<Lt>, option<Lt>> && !has<3, option<Lt>, option<Lt>> && has<2, Lt, option<Lt>>), "available exactly as the payload's operator");
        MC_CHECK((has<0, option<X1>, option<Y1>> && has<2, option<X1>, Y1> && has<2, X1, option<Y1>> && !has<2, option<Y1>, option<X1>> && has<5, option<Y1>, X1>), "available exactly as the payloads' operators"); }
#endif
    return mc::finish();
}
