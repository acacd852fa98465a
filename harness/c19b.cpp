// C19 (b): the wrappers sentinel, sentinel_f, member, enforce, and sentinel_option_traits and user-provided option_traits, for all
// values (bytes) or all values around the sentinels, all levels and all nesting depths.
#include "mc.hpp"
#include <opt/option.hpp>
#include <array>
#include <functional>
#include <memory>
#include <string>
#include <tuple>
#include <utility>

#if PART == 1
// ---- overridden, disabled and conditional traits
template<> struct opt::option_traits<float> { static constexpr std::uintmax_t max_level = 1; static std::uintmax_t get_level(const float* v) noexcept { return *v == 0.f ? 0 : std::uintmax_t(-1); } static void set_level(float* v, std::uintmax_t) noexcept { *v = 0; } };
template<> struct opt::option_traits<double> { static constexpr std::uintmax_t max_level = 0; };
namespace { enum class fb : unsigned char { f, t, SENTINEL = 50, SENTINEL_START = 60, SENTINEL_END = 90 }; }
template<> struct opt::option_traits<fb> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const fb* v) noexcept { unsigned char c; std::memcpy(&c, v, 1); return c >= 100 && c < 102 ? c - 100u : std::uintmax_t(-1); } static void set_level(fb* v, std::uintmax_t l) noexcept { const unsigned char c = static_cast<unsigned char>(100 + l); std::memcpy(v, &c, 1); } };
namespace { template<class T> struct cond { T x; }; }
template<class T> struct opt::option_traits<cond<T>, std::enable_if_t<!std::is_same_v<T, short>>> { static constexpr std::uintmax_t max_level = 1; static std::uintmax_t get_level(const cond<T>* v) noexcept { return std::uintmax_t(v->x + 1); } static void set_level(cond<T>* v, std::uintmax_t) noexcept { v->x = -1; } };
#endif

namespace {
template<class T, int D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T, int D> using nest_t = typename nest<T, D>::type;
template<class O> auto& inner(O& o) { if constexpr (opt::is_option_v<std::remove_const_t<O>>) return inner(o.get_unchecked()); else return o; }
// 0 = the outermost option is empty, ... D = a value
template<class O> int depth(const O& o) { if constexpr (opt::is_option_v<O>) return o.has_value() ? 1 + depth(*o) : 0; else return 0; }
template<class O> void make_empty(O& o, int d) { if constexpr (opt::is_option_v<O>) { if (d == 0) { o.reset(); return; } if (!o.has_value()) o.emplace(); make_empty(*o, d - 1); } }
void tick(int n = 1) { mc::stats.transitions += unsigned(n); }
struct verified { unsigned long long h; verified() : h(mc::verify_hits) { ++mc::verify_expected; } ~verified() { --mc::verify_expected; } bool hit() const { return mc::verify_hits != h; } };

// ---- a wrapper W of T in which values vs[0..L) are levels 0..L-1 (first match counts): everything with D options around it
template<class W, class T, int D> void levels_at(const T* vs, int L, const T* all, int n) {
    using O = nest_t<W, D>;
    auto level = [&](const T& v) { for (int i = 0; i < L; ++i) if (v == vs[i]) return i; return -1; };
    mc::clear(); mc::push("options around it", D);
    if (D <= L) MC_CHECK(sizeof(O) == sizeof(W), "option is larger than the wrapper although there are levels left");
    else if (D > 0) MC_CHECK(sizeof(O) > sizeof(W), "option keeps more states than there are levels");
    for (int d = 0; d < D; ++d) { // empty at layer d from outside
        mc::scope s("empty after layers", d);
        O o; make_empty(o, d); tick();
        ++mc::stats.states;
        MC_CHECK(depth(o) == d, "depth of emptiness differs");
        if (D <= L) MC_CHECK(level(inner(o).m) == D - 1 - d && inner(o).m == vs[D - 1 - d], "the empty state is not the documented value");
        O c = o; make_empty(c, 0); MC_CHECK(depth(c) == 0 && depth(o) == d, "resetting a copy"); c = o; MC_CHECK(depth(c) == d, "copy of an empty option");
    }
    for (int i = 0; i < n; ++i) {
        mc::scope s("value number", i);
        const T& v = all[i];
        const int l = level(v), used = D <= L ? D : L; // layers that use levels
        ++mc::stats.states; ++mc::stats.traces;
        if (l < 0 || l >= used) { // a plain value for this many options
            O o(std::in_place, W(v)); tick(2);
            MC_CHECK(depth(o) == D, "an option built from a value is empty");
            MC_CHECK(inner(o).m == v, "value changed");
            O c(o); O m(std::move(c)); c = m; MC_CHECK(depth(c) == D && inner(c).m == v, "copied value");
            make_empty(o, 0); MC_CHECK(depth(o) == 0, "reset"); tick(4);
            o = m; MC_CHECK(depth(o) == D && inner(o).m == v, "value restored by assignment");
        }
        if (D > 0 && D <= L) { // write the raw value below all layers
            for (int k = 0; k < n; ++k) if (level(all[k]) < 0) { // start from some engaged state
                O o(std::in_place, W(all[k])); W& w = inner(o); w.m = v; tick();
                const int want = l < 0 || l >= D ? D : D - 1 - l;
                MC_CHECK(depth(std::as_const(o)) == want, "the depth of emptiness does not follow the written value");
                break;
            }
        }
    }
}
template<class W, class T> void traits_of(const T* vs, int L, const T* all, int n) {
    using tr = opt::option_traits<W>;
    mc::clear(); mc::push("traits");
    MC_CHECK(tr::max_level == std::uintmax_t(L), "max_level");
    for (int i = 0; i < n; ++i) {
        mc::scope s("value number", i);
        int l = -1; for (int j = L - 1; j >= 0; --j) if (all[i] == vs[j]) l = j;
        const W w(all[i]); tick();
        MC_CHECK(l < 0 ? tr::get_level(&w) >= std::uintmax_t(L) : tr::get_level(&w) == std::uintmax_t(l), "get_level");
        for (int j = 0; j < L; ++j) {
            mc::scope s2("set_level", j);
            W x(all[i]); tr::set_level(&x, std::uintmax_t(j)); tick(); ++mc::stats.states;
            MC_CHECK(x.m == vs[j], "set_level writes another value");
        }
    }
}
template<class W, class T> void mimics(const T* all, int n) {
    mc::clear(); mc::push("wrapper");
    static_assert(sizeof(W) == sizeof(T));
    MC_CHECK((std::is_convertible_v<const T&, W> && std::is_convertible_v<W&, T&> && std::is_convertible_v<const W&, const T&> && std::is_convertible_v<W, T&&>), "conversions of the wrapper");
    MC_CHECK((std::is_default_constructible_v<W> == std::is_default_constructible_v<T> && std::is_copy_constructible_v<W> == std::is_copy_constructible_v<T> && std::is_nothrow_copy_constructible_v<W> == std::is_nothrow_copy_constructible_v<T>
        && std::is_trivially_copyable_v<W> == std::is_trivially_copyable_v<T>), "properties of the wrapper");
    if constexpr (std::is_default_constructible_v<T>) { W w{}; W d; MC_CHECK(w.m == T{} && d.m == T{}, "default value of the wrapper"); }
    for (int i = 0; i < n; ++i) for (int j = 0; j < n && j < 8; ++j) {
        mc::scope s("value number", i), s2("and", j); tick(6); ++mc::stats.states;
        W w = all[i]; const W cw(all[j]);
        T& r = w; const T& cr = cw;
        MC_CHECK(&r == &w.m && &cr == &cw.m && r == all[i] && cr == all[j], "conversion to the value");
        T&& rr = std::move(w); MC_CHECK(&rr == &w.m, "conversion to an rvalue");
        w = all[j]; MC_CHECK(w.m == all[j], "assignment of a value"); W* self = &(w = T(all[i])); MC_CHECK(self == &w && w.m == all[i], "assignment of a value");
        w = cw; MC_CHECK(w.m == all[j], "assignment of a wrapper");
        opt::option<W> o; 
        { verified v; o = all[i]; if (!v.hit()) MC_CHECK(o.has_value() && *o == all[i], "assignment of a value to an option of the wrapper"); }
        { verified v; o = cw; if (!v.hit()) { const T& t = *o; MC_CHECK(t == all[j], "assignment of a wrapper to an option"); } }
    }
}
template<class W, class T, std::size_t N, std::size_t M> void levels(const char* name, const T (&vs)[N], const T (&all)[M]) {
    mc::set_ctx(name);
    mimics<W, T>(all, int(M < 40 ? M : 40));
    traits_of<W, T>(vs, int(N), all, int(M));
    levels_at<W, T, 1>(vs, int(N), all, int(M)); levels_at<W, T, 2>(vs, int(N), all, int(M));
    levels_at<W, T, 3>(vs, int(N), all, int(M)); levels_at<W, T, 4>(vs, int(N), all, int(M)); levels_at<W, T, 5>(vs, int(N), all, int(M));
    mc::sample(std::string(name) + ": " + std::to_string(M) + " values, " + std::to_string(N) + " levels, 1 to 5 nested options");
}
template<class T> struct every { T v[256]; every() { for (int i = 0; i < 256; ++i) v[i] = T(i); } };

enum class en : short { a = -3, b = 0, c = 77 };
struct modular { int x = 0; modular() = default; modular(int i) noexcept : x(i % 100) {} modular& operator=(int i) noexcept { x = i % 100; return *this; } friend bool operator==(const modular& a, const modular& b) { return a.x == b.x; } friend bool operator==(const modular& a, int i) { return a.x == i % 100; } };
int ints[3];

// ---- sentinel_f: calls of Compare and Set, in order
std::string calls;
struct cmp { bool operator()(const int& a, int v) const { calls += "c" + std::to_string(v); return a == v || a == -v; } };
struct set { void operator()(int& a, int v) const { calls += "s" + std::to_string(v); a = -v; } };
void sentinel_f_calls() {
    using W = opt::sentinel_f<int, cmp, set, 4, 7, 9, 7>;
    using tr = opt::option_traits<W>;
    mc::set_ctx("sentinel_f<int, abs, neg, 4, 7, 9, 7>");
    MC_CHECK(tr::max_level == 4, "max_level");
    const char* expected[3] = {"c4", "c4c7", "c4c7c9"};
    for (int x = -12; x <= 12; ++x) {
        mc::clear(); mc::push("value", x);
        const int a = x < 0 ? -x : x, l = a == 4 ? 0 : a == 7 ? 1 : a == 9 ? 2 : -1;
        const W w(x); calls.clear(); tick(); ++mc::stats.states;
        const auto g = tr::get_level(&w);
        MC_CHECK(l < 0 ? g >= 4 : g == std::uintmax_t(l), "get_level");
        MC_CHECK(calls == (l < 0 ? "c4c7c9c7" : expected[l]), "Compare is not called on the values in order up to the first match");
        const char* sets[4] = {"s4", "s7", "s9", "s7"}; const int vals[4] = {-4, -7, -9, -7};
        for (int k = 0; k < 4; ++k) { mc::scope s("set_level", k); W v(x); calls.clear(); tr::set_level(&v, std::uintmax_t(k)); MC_CHECK(calls == sets[k] && v.m == vals[k], "Set is not called once with the level's value"); tick(); }
        if (l < 0) { opt::option<W> o(w); MC_CHECK(o.has_value() && o->m == x, "option of a value"); o.reset(); MC_CHECK(!o.has_value() && o.get_unchecked().m == -4, "empty option"); tick(2);
            opt::option<opt::option<W>> p(w); p.reset(); MC_CHECK(!p.has_value() && p.get_unchecked().get_unchecked().m == -7, "empty outer option"); }
    }
    calls.clear(); { opt::option<W> e; } 
    MC_CHECK(calls.find("s4") == 0, "default construction sets the level");
}

// ---- member: only the member is used
template<class M> struct with_member { unsigned char before[8]; M x; unsigned char after[8]; with_member() { std::memset(before, 0xAB, 8); std::memset(after, 0xCD, 8); } };
template<class M> bool frame(const with_member<M>& s) { for (int i = 0; i < 8; ++i) if (s.before[i] != 0xAB || s.after[i] != 0xCD) return false; return true; }
template<class M> bool same(const M& a, const M& b) { if constexpr (std::has_unique_object_representations_v<M> || std::is_floating_point_v<M>) return std::memcmp(&a, &b, sizeof(M)) == 0; else if constexpr (opt::is_option_v<M>) return a == b; else return static_cast<const M&>(a) == b; }
template<class T, auto... V> bool same(const opt::sentinel<T, V...>& a, const opt::sentinel<T, V...>& b) { return a.m == b.m; }
template<class M> void member_of(const char* name, const M* values, int n) {
    mc::set_ctx("member", name);
    using S = with_member<M>; using W = opt::member<S, &S::x>; using E = opt::enforce<M>;
    using tm = opt::option_traits<M>; using tw = opt::option_traits<W>; using te = opt::option_traits<E>;
    mc::clear();
    MC_CHECK(tm::max_level == tw::max_level && tm::max_level == te::max_level, "max_level is not that of the member");
    MC_CHECK(sizeof(opt::option<W>) == sizeof(S) && sizeof(opt::option<E>) == sizeof(M), "size of the option");
    for (int i = 0; i < n; ++i) {
        mc::clear(); mc::push("value number", i);
        S s; s.x = values[i]; W w(s); E e(values[i]); tick(3); ++mc::stats.states; ++mc::stats.traces;
        MC_CHECK(tw::get_level(&w) == tm::get_level(&values[i]) && te::get_level(&e) == tm::get_level(&values[i]), "get_level is not that of the member");
        opt::option<W> o(w); opt::option<E> oe(e);
        MC_CHECK(o.has_value() && same(o->m.x, values[i]) && frame(o->m), "value of the option"); MC_CHECK(oe.has_value() && same(oe->m, values[i]), "value of the option");
        const std::uintmax_t top = tm::max_level < 40 ? tm::max_level : 40;
        for (std::uintmax_t l = 0; l < top; ++l) {
            mc::scope sc("set_level", (long long)l); tick(3);
            W x(s); M m = values[i]; E y(m); tm::set_level(&m, l); tw::set_level(&x, l); te::set_level(&y, l);
            MC_CHECK(tw::get_level(&x) == l && te::get_level(&y) == l && tm::get_level(&m) == l, "level not read back");
            MC_CHECK(frame(x.m), "set_level touches other members");
        }
        o.reset(); oe.reset();
        MC_CHECK(!o.has_value() && !oe.has_value() && frame(o.get_unchecked().m), "reset touches other members");
        o.emplace(s); MC_CHECK(o.has_value() && frame(o->m), "emplace");
    }
}

// ---- the guide's example: 100 levels kept in y when x is -1
struct guide { int x; int y; };
template<int D> void guide_depth() {
    using O = nest_t<guide, D>;
    mc::set_ctx("traits of the guide"); 
    for (int x : {-1, 0, 5}) for (int y = 0; y < 8; ++y) {
        mc::clear(); mc::push("options", D); mc::push("x", x); mc::push("y", y);
        O o(std::in_place, nest_t<guide, D - 1>(guide{1, 2})); tick(); ++mc::stats.states; ++mc::stats.traces;
        MC_CHECK(depth(o) == D, "engaged");
        guide& g = inner(o); g.x = x; g.y = y;
        const int want = x == -1 && y < D ? D - 1 - y : D;
        MC_CHECK(depth(std::as_const(o)) == want, "depth of emptiness does not follow the documented level");
        O c = o; MC_CHECK(depth(c) == want, "copy"); O m = std::move(c); MC_CHECK(depth(m) == want, "move");
        for (int d = 0; d < D; ++d) { mc::scope s("reset after layers", d); O e = o; { verified v; make_empty(e, d); } if (want >= d) { MC_CHECK(depth(e) == d, "reset"); MC_CHECK(inner(e).x == -1 && inner(e).y == D - 1 - d, "level written by reset"); } tick(2); }
    }
}
}
template<> struct opt::option_traits<guide> {
    static constexpr std::uintmax_t max_level = 100;
    static std::uintmax_t get_level(const guide* v) noexcept { return v->x == -1 ? std::uintmax_t(v->y) : std::uintmax_t(-1); }
    static void set_level(guide* v, std::uintmax_t l) noexcept { v->x = -1; v->y = int(l); }
};
namespace {
struct small { unsigned char x; unsigned char m_() const { return x; } bool operator==(const small& o) const { return x == o.x; } };
struct sized { unsigned char m; sized(unsigned char c = 0) : m(c) {} bool operator==(const sized& o) const { return m == o.m; } };
}
template<> struct opt::sentinel_option_traits<sized> { static constexpr struct wrap { unsigned char c; operator sized() const { return sized(c); } } src{200}; static const sized sentinel_value; };
inline const sized opt::sentinel_option_traits<sized>::sentinel_value{200};

#if PART == 1
namespace {
template<class O> unsigned char byte0(const O& o) { unsigned char c; std::memcpy(&c, &o, 1); return c; }
using arr2 = std::array<fb, 2>;
void overriding() {
    mc::set_ctx("overridden traits of float"); 
    MC_CHECK(sizeof(opt::option<float>) == sizeof(float) && sizeof(opt::option<opt::option<float>>) > sizeof(float), "size with one level");
    for (float f : {1.f, -1.f, 1e-45f, __builtin_inff(), __builtin_nanf("1"), __builtin_nansf("77")}) {
        opt::option<float> o(f); ++mc::stats.states; tick(4); ++mc::stats.traces; MC_CHECK(o.has_value() && std::memcmp(&*o, &f, 4) == 0, "value"); *o = 0.f; MC_CHECK(!o.has_value(), "writing the empty value empties"); o = f; MC_CHECK(o.has_value(), "assigned"); o.reset(); float z; std::memcpy(&z, &o, 4); MC_CHECK(!o.has_value() && z == 0.f, "empty state");
        std::uint32_t b; std::memcpy(&b, &f, 4);
        for (std::uint32_t d = 0; d < 3; ++d) { const std::uint32_t bits = 0x7FA00000u + b % 7 + d; float g; std::memcpy(&g, &bits, 4); opt::option<float> p(std::in_place, 1.f); std::memcpy(&*p, &g, 4); MC_CHECK(p.has_value(), "the built-in patterns are ordinary values"); }
        opt::option<std::pair<int, float>> q(std::in_place, 3, f); MC_CHECK(sizeof q == sizeof(std::pair<int, float>) && q.has_value(), "pair of an overridden type"); q->second = 0.f; MC_CHECK(!q.has_value(), "pair uses the overridden traits");
    }
    mc::set_ctx("disabled traits of double");
    MC_CHECK((sizeof(opt::option<double>) > sizeof(double) && sizeof(opt::option<std::pair<int, double>>) > sizeof(std::pair<int, double>) && opt::option_traits<std::tuple<double, int>>::max_level == 0), "disabled traits use a flag");
    for (std::uint64_t hi : {0x7FF0000000000000ull, 0x7FF4000000000000ull, 0x7FF8000000000000ull, 0xFFF8000000000000ull, 0x7FF4AB87E5AD4000ull}) for (std::uint64_t lo = 0; lo < 600; ++lo) {
        const std::uint64_t bits = hi + lo; double d; std::memcpy(&d, &bits, 8); opt::option<double> o(std::in_place, 0.0); std::memcpy(&*o, &bits, 8); ++mc::stats.states; tick();
        MC_CHECK(o.has_value(), "a value with disabled traits is taken for the empty state");
    }
    mc::set_ctx("overridden traits of an enum with sentinels");
    MC_CHECK((sizeof(opt::option<opt::option<fb>>) == 1 && sizeof(opt::option<opt::option<opt::option<fb>>>) > 1), "size with two levels");
    for (fb b : {fb::f, fb::t, fb::SENTINEL, fb(60), fb(89)}) { opt::option<fb> o(b); MC_CHECK(o.has_value() && *o == b, "value"); o.reset(); MC_CHECK(!o.has_value() && byte0(o) == 100, "empty state"); opt::option<opt::option<fb>> p(o); MC_CHECK(p.has_value() && !p->has_value() && byte0(p) == 100, "inner empty"); p.reset(); MC_CHECK(!p.has_value() && byte0(p) == 101, "outer empty"); opt::option<std::array<fb, 2>> q(std::in_place, arr2{b, b}); MC_CHECK(sizeof q == 2 && q.has_value(), "array"); q.reset(); MC_CHECK(!q.has_value() && byte0(q) == 100, "array uses the overridden traits"); ++mc::stats.states; tick(5); }
    mc::sample("overridden, disabled and conditional traits of float, double, an enum and a class template");
    mc::set_ctx("conditional traits");
    MC_CHECK(sizeof(opt::option<cond<int>>) == sizeof(cond<int>) && sizeof(opt::option<cond<short>>) > sizeof(cond<short>), "size");
    for (int x = -3; x < 4; ++x) { opt::option<cond<int>> o(std::in_place, cond<int>{5}); o->x = x; MC_CHECK(o.has_value() == (x != -1), "conditional traits on"); opt::option<cond<short>> p(std::in_place, cond<short>{short(x)}); MC_CHECK(p.has_value() && p->x == x, "conditional traits off"); p.reset(); MC_CHECK(!p.has_value(), "reset"); ++mc::stats.states; tick(3); ++mc::stats.traces; }
}
}
#endif
int main() {
    mc::init();
#if PART == 0
    static const every<unsigned char> uc; static const every<signed char> sc; static const every<char> ch;
    using u8 = unsigned char; using s8 = signed char;
    levels<opt::sentinel<u8, 7>, u8>("sentinel<unsigned char,7>", {u8(7)}, uc.v);
    levels<opt::sentinel<u8, 255, 0, 3>, u8>("sentinel<unsigned char,255,0,3>", {u8(255), u8(0), u8(3)}, uc.v);
    levels<opt::sentinel<s8, -1, 5>, s8>("sentinel<signed char,-1,5>", {s8(-1), s8(5)}, sc.v);
    levels<opt::sentinel<char, '\0', 'x', ' ', '~'>, char>("sentinel<char,...>", {'\0', 'x', ' ', '~'}, ch.v);
    levels<opt::sentinel<int, -1>, int>("sentinel<int,-1>", {-1}, {-2, -1, 0, 1, 2147483647, -2147483647 - 1, 255, 65535});
    levels<opt::sentinel<int, -1, -2, 0>, int>("sentinel<int,-1,-2,0>", {-1, -2, 0}, {-3, -2, -1, 0, 1, 2147483647, -2147483647 - 1});
    levels<opt::sentinel<long long, 10, 20, 30, 40, 50>, long long>("sentinel<long long,...>", {10LL, 20LL, 30LL, 40LL, 50LL}, {0LL, 10LL, 20LL, 30LL, 40LL, 50LL, 51LL, 10LL + (1LL << 32)});
    levels<opt::sentinel<bool, true>, bool>("sentinel<bool,true>", {true}, {false, true});
    levels<opt::sentinel<en, en::c, en::a>, en>("sentinel<enum>", {en::c, en::a}, {en::a, en::b, en::c, en(4)});
    levels<opt::sentinel<int*, nullptr>, int*>("sentinel<int*,nullptr>", {static_cast<int*>(nullptr)}, {static_cast<int*>(nullptr), &ints[0], &ints[1]});
    levels<opt::sentinel<double, -1, 0>, double>("sentinel<double,-1,0>", {-1., 0.}, {-1., -2., 0., -0., 1., 1e300});
    levels<opt::sentinel<modular, 7, 42>, modular>("sentinel<class comparable with int>", {modular(7), modular(42)}, {modular(0), modular(7), modular(42), modular(142), modular(8)});
    struct assign { void operator()(int& a, int v) const { a = v; } };
    levels<opt::sentinel_f<int, std::equal_to<>, assign, 3, 2, 1>, int>("sentinel_f<int,equal,assign,3,2,1>", {3, 2, 1}, {0, 1, 2, 3, 4});
    sentinel_f_calls();
#elif PART == 1
    overriding();
#elif PART == 2
    static const bool bools[] = {false, true}; member_of("bool", bools, 2);
    static const float floats[] = {0.f, -1.f, __builtin_inff(), __builtin_nanf("")}; member_of("float", floats, 4);
    static const double doubles[] = {0., 2.5, __builtin_nan("")}; member_of("double", doubles, 3);
    static int* const ptrs[] = {nullptr, ints, ints + 2}; member_of("int*", ptrs, 3);
    static const opt::option<int> oi[] = {opt::option<int>(3), opt::option<int>(0)}; member_of("option<int>", oi, 2);
    static const std::pair<bool, char> pb[] = {{true, 'a'}, {false, 'b'}}; { using P = std::pair<bool, char>; member_of<P>("pair<bool,char>", pb, 2); }
    static const opt::sentinel<short, -1, -2> ss[] = {opt::sentinel<short, -1, -2>(short(4)), opt::sentinel<short, -1, -2>(short(-3))}; member_of("sentinel", ss, 2);
    guide_depth<1>(); guide_depth<2>(); guide_depth<3>(); guide_depth<4>(); guide_depth<5>();
    mc::set_ctx("sentinel_option_traits");
    MC_CHECK(opt::option_traits<sized>::max_level == 1 && sizeof(opt::option<sized>) == 1 && sizeof(opt::option<opt::option<sized>>) > 1, "one level");
    for (int i = 0; i < 256; ++i) {
        mc::clear(); mc::push("value", i); ++mc::stats.states; ++mc::stats.traces; tick(5);
        const sized v{static_cast<unsigned char>(i)};
        MC_CHECK(i == 200 ? opt::option_traits<sized>::get_level(&v) == 0 : opt::option_traits<sized>::get_level(&v) >= 1, "get_level");
        opt::option<sized> o(std::in_place, sized(1)); o->m = static_cast<unsigned char>(i); MC_CHECK(o.has_value() == (i != 200), "empty exactly when the value is the sentinel");
        o = opt::none; MC_CHECK(!o.has_value() && o.get_unchecked().m == 200, "empty state is the sentinel");
        if (i != 200) { o = v; MC_CHECK(o.has_value() && o->m == i, "assignment"); opt::option<opt::option<sized>> p(o); MC_CHECK(p.has_value() && p->has_value() && (*p)->m == i, "nested"); p->reset(); MC_CHECK(p.has_value() && !p->has_value(), "inner empty"); p.reset(); MC_CHECK(!p.has_value(), "outer empty"); }
    }
    mc::sample("member, enforce: levels of 7 member types; documented depth of emptiness for 1 to 5 options; sentinel_option_traits: all 256 values");
#endif
    return mc::finish();
}
