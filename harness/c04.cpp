// C04: no legitimate payload value is mistaken for the empty state.  PART 0: complete float sweep; 1: double and
// pointers; 2: small scalars, enumerations, library types and classes.
#include <thread>
#include <atomic>
#include <cstring>
static thread_local int g_reported = 0;   // OPTION_VERIFY reports of the current thread
#define MC_DEFAULT_VERIFY
#define OPTION_VERIFY(expression, message) ((expression) ? (void)0 : (void)++g_reported)
#include "fn.hpp"
#include <cmath>
#include <complex>
#include <limits>
#include <map>
#include <set>
#include <variant>
using namespace fn;
#ifndef QUIET
#define QUIET 0
#endif
template<class T> bool eq_bits(const T& a, const T& b) {
    if constexpr (std::is_floating_point_v<T> && sizeof(T) > 8) return a == b;
    else if constexpr (std::is_scalar_v<T>) return std::memcmp(&a, &b, sizeof(T)) == 0;
    else return a == b;
}
template<class T, int D> struct nest_t { using type = opt::option<typename nest_t<T, D - 1>::type>; };
template<class T> struct nest_t<T, 0> { using type = T; };
template<class T, int D> using nest = typename nest_t<T, D>::type;
template<int D, class T, class O> bool deep(const O& o, const T& v) {
    if constexpr (D == 0) return eq_bits(o, v);
    else return o.has_value() && bool(o) && deep<D - 1>(*o, v);
}
// A value lies outside the whole reserved range, so that options nested over it to any depth keep it too.
template<class T> bool outside(const T& v) {
    using Tr = opt::option_traits<T>;
    if constexpr (Tr::max_level > 0) return Tr::get_level(std::addressof(v)) >= Tr::max_level; else return (void)v, true;
}
// Light: used for the sweeps over billions of values. True = kept.
template<int D, class T> bool light(const T& v) {
    nest<T, D> o(v);
    if (!deep<D>(o, v) || !outside(v)) return false;
    nest<T, D> c(o);
    return deep<D>(c, v);
}
// Heavy: every way a value enters an option.
template<class T> void heavy(const T& v, const T& other) {
    using O = opt::option<T>;
    g_reported = 0;
    auto chk = [&](const O& o, const char* how) { ++mc::stats.transitions; ++mc::stats.checks; if (!deep<1>(o, v)) MC_CHECK(false, how); };
    MC_CHECK(outside(v), "outside the reserved range: kept at any nesting depth");
    { O o(v); chk(o, "kept: construction from a value"); O c(o); chk(c, "kept: copy construction"); O m(std::move(c)); chk(m, "kept: move construction"); }
    { O o(std::in_place, v); chk(o, "kept: in-place construction"); O e; e = o; chk(e, "kept: copy assignment to empty"); O f(other); f = o; chk(f, "kept: copy assignment to engaged"); }
    { O o; o = v; chk(o, "kept: assignment to empty"); O e; e = std::move(o); chk(e, "kept: move assignment to empty"); O f(other); f = std::move(e); chk(f, "kept: move assignment to engaged"); }
    { O o(other); o = v; chk(o, "kept: assignment to engaged"); O e; o.swap(e); chk(e, "kept: swap with empty"); O f(other); e.swap(f); chk(f, "kept: swap with engaged"); }
    { O o; o.emplace(v); chk(o, "kept: emplace on empty"); O p(other); p.emplace(v); chk(p, "kept: emplace on engaged"); O t = p.take(); chk(t, "kept: take"); }
    { O o(other); o.reset(); o.emplace(v); chk(o, "kept: emplace after reset"); O t; t |= v; chk(t, "kept: operator|="); }
    { auto o = opt::make_option<T>(v); chk(o, "kept: make_option"); }
    MC_CHECK((deep<2>(nest<T, 2>(O(v)), v)), "kept: nested construction");
    MC_CHECK((deep<3>(nest<T, 3>(nest<T, 2>(O(v))), v)), "kept: doubly nested construction");
    { nest<T, 2> o; o.emplace(v); MC_CHECK((deep<2>(o, v)), "kept: nested emplace"); o = opt::none; o.emplace().emplace(v); MC_CHECK((deep<2>(o, v)), "kept: emplace in nested empty"); }
    MC_CHECK(eq_bits(O(v).value_or(other), v), "kept: value_or");
    MC_CHECK(O(v) != opt::none && !(O(v) == opt::none), "kept: not none");
    MC_CHECK(g_reported == 0, "a legitimate value is reported as the empty pattern");
    ++mc::stats.states; ++mc::stats.traces;
}
struct sweep_fail { std::uint64_t first = 0, count = 0; };
template<class F> sweep_fail parallel(std::uint64_t lo, std::uint64_t hi, F f) { // f(i): true = fine
    const unsigned N = 8; std::vector<std::thread> th; std::vector<sweep_fail> r(N);
    for (unsigned t = 0; t < N; ++t) th.emplace_back([&, t] {
        const std::uint64_t n = hi - lo, a = lo + n / N * t, b = t + 1 == N ? hi : lo + n / N * (t + 1);
        for (std::uint64_t i = a; i < b; ++i) if (!f(i)) { if (!r[t].count) r[t].first = i; ++r[t].count; }
    });
    for (auto& x : th) x.join();
    sweep_fail s; for (auto& x : r) { if (x.count && !s.count) s.first = x.first; s.count += x.count; }
    mc::stats.states += hi - lo; mc::stats.traces += hi - lo; mc::stats.transitions += 2 * (hi - lo); mc::stats.checks += hi - lo;
    return s;
}
template<class U> std::string hex(U u) { char b[40]; std::snprintf(b, sizeof b, "0x%llx", (unsigned long long)u); return b; }
template<class T, class U> T from(U u) { static_assert(sizeof(T) == sizeof(U), ""); T t; std::memcpy(&t, &u, sizeof t); return t; }

// documented reserved ranges (docs/builtin_traits.md)
constexpr std::uint32_t f_lo = QUIET ? 0xFFC3EFB5u : 0xFFBF69AFu, f_hi = f_lo + 255;
constexpr std::uint64_t d_lo = QUIET ? 0xFFFBF26430BB3557u : 0xFFF6C79F55B0898Fu, d_hi = d_lo + 255;
constexpr std::uint64_t p_lo = 0xF8E1B1825D5D6C67u, p_hi = p_lo + 511;

template<int D> void floats() {
    mc::set_ctx("float", D == 1 ? "depth 1" : D == 2 ? "depth 2" : "depth 3");
    auto r = parallel(0, std::uint64_t(1) << 32, [](std::uint64_t i) {
        const std::uint32_t u = std::uint32_t(i);
        g_reported = 0;
        const bool ok = light<D>(from<float>(u));
        const bool reserved = u >= f_lo && u <= f_hi;
        return reserved || (ok && !g_reported);
    });
    MC_CHECK(r.count == 0, "a float outside the reserved NaNs is lost");
    if (r.count) mc::fail("first lost float", hex(r.first) + " and " + std::to_string(r.count - 1) + " more");
    mc::sample("all 2^32 floats at depth " + std::to_string(D));
}
bool double_ok(std::uint64_t u) {
    g_reported = 0;
    const double d = from<double>(u);
    const bool ok = light<1>(d) && light<2>(d) && !g_reported;
    return ok || (u >= d_lo && u <= d_hi);
}
void doubles() {
    mc::set_ctx("double");
    std::vector<std::uint64_t> man;
    for (int i = 0; i < 52; ++i) { man.push_back(std::uint64_t(1) << i); man.push_back(((std::uint64_t(1) << 52) - 1) ^ (std::uint64_t(1) << i)); man.push_back((std::uint64_t(1) << i) - 1); for (int j = 0; j < i; ++j) man.push_back(std::uint64_t(1) << i | std::uint64_t(1) << j); }
    man.push_back((std::uint64_t(1) << 52) - 1); man.push_back(0);
    for (std::uint64_t b : {d_lo, std::uint64_t(0xFFFBF26430BB3557u), std::uint64_t(0xFFF6C79F55B0898Fu)}) for (int k = -300; k < 600; k += 7) man.push_back((b + k) & ((std::uint64_t(1) << 52) - 1)); // the reserved mantissas under every other exponent
    std::atomic<std::uint64_t> bad{0}, first{0};
    auto r = parallel(0, 4096 * std::uint64_t(man.size()), [&](std::uint64_t i) { return double_ok((i / man.size()) << 52 | man[i % man.size()]); });
    MC_CHECK(r.count == 0, "a double (exponent x structured mantissa) is lost");
    if (r.count) mc::fail("first lost double", hex((r.first / man.size()) << 52 | man[r.first % man.size()]));
    // all NaNs and infinities: the upper 26 mantissa bits completely, lower bits structured
    r = parallel(0, std::uint64_t(1) << 25, [&](std::uint64_t i) { // sign + top 24 mantissa bits
        const std::uint64_t base = (i >> 24) << 63 | std::uint64_t(0x7FF) << 52 | (i & 0xFFFFFF) << 28;
        return double_ok(base) && double_ok(base | 1) && double_ok(base | 0xFFFFFFF) && double_ok(base | (d_lo & 0xFFFFFFF));
    });
    MC_CHECK(r.count == 0, "a NaN (upper mantissa bits) is lost");
    if (r.count) mc::fail("first lost NaN prefix", hex(r.first));
    // the neighbourhood of both documented ranges
    for (std::uint64_t b : {std::uint64_t(0xFFFBF26430BB3557u), std::uint64_t(0xFFF6C79F55B0898Fu), std::uint64_t(0x7FFBF26430BB3557u), std::uint64_t(0x7FF6C79F55B0898Fu)}) {
        r = parallel(b - (1 << 22), b + (1 << 22), double_ok);
        MC_CHECK(r.count == 0, "a NaN near the reserved ones is lost");
        if (r.count) mc::fail("first lost NaN", hex(r.first));
    }
    for (double d : {0.0, -0.0, 1.0, -1.0, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::quiet_NaN(), -std::numeric_limits<double>::quiet_NaN(), std::nan("1"), std::numeric_limits<double>::epsilon()}) heavy(d, 2.5);
    mc::set_ctx("float values"); for (float d : {0.0f, -0.0f, 1.0f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::quiet_NaN(), std::nanf("77"), std::numeric_limits<float>::denorm_min()}) heavy(d, 2.5f);
    mc::set_ctx("long double values"); for (long double d : {0.0L, -1.0L, std::numeric_limits<long double>::infinity(), std::numeric_limits<long double>::max()}) heavy(d, 2.5L);
    mc::set_ctx("complex"); 
    for (double re : {0.0, -0.0, 1.5, std::numeric_limits<double>::infinity()}) for (double im : {0.0, -3.0, std::numeric_limits<double>::infinity(), from<double>(d_lo)}) {
        opt::option<std::complex<double>> o(std::complex<double>(re, im)); ++mc::stats.states; ++mc::stats.traces; ++mc::stats.transitions;
        auto v = o.has_value() ? *o : std::complex<double>(99, 99); double a = v.real(), b = v.imag();
        MC_CHECK(o.has_value() && eq_bits(a, re) && eq_bits(b, im), "complex value kept (any imaginary part)");
    }
}
template<class P> void pointer_values(const char* nm) {
    mc::set_ctx(nm);
    auto ok = [](std::uint64_t u) { g_reported = 0; const P p = from<P>(u); const bool k = light<1>(p) && light<2>(p) && !g_reported; return k || (u >= p_lo && u <= p_hi); };
    auto all = [&](std::uint64_t a, std::uint64_t b, const char* what) { auto r = parallel(a, b, ok); MC_CHECK(r.count == 0, what); if (r.count) mc::fail(std::string(what) + " (first)", hex(r.first)); };
    all(0, 1 << 20, "a low address is lost");
    all(std::uint64_t(0) - (1 << 20), ~std::uint64_t(0), "a top address is lost"); MC_CHECK(ok(~std::uint64_t(0)), "address -1 is lost");
    // canonical addresses (57 bit): every page prefix pattern x low bits
    auto r = parallel(0, std::uint64_t(1) << 22, [&](std::uint64_t i) { // top 22 of the 57 bits, sign extended
        std::uint64_t a = i << 35; if (a >> 56 & 1) a |= std::uint64_t(0xFF) << 56;
        return ok(a) && ok(a | 0x5D5D6C67) && ok(a | 0x7FFFFFFFF) && ok(a | 0x1825D5D6C67);
    });
    MC_CHECK(r.count == 0, "a canonical address is lost"); if (r.count) mc::fail("canonical address (first prefix)", hex(r.first));
    all(p_lo - (1 << 22), p_hi + (1 << 22), "a value near the reserved range is lost");
    for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) { std::uint64_t u = std::uint64_t(1) << i | std::uint64_t(1) << j; MC_CHECK(ok(u) && ok(~u) && ok(u - 1), "one- and two-bit addresses"); ++mc::stats.states; }
}
template<class T, class U> void exhaustive(const char* nm, long lo, long hi) { // every value of a small arithmetic or enumeration type
    mc::set_ctx(nm);
    const bool all = hi - lo <= 300;
    for (long i = lo; i <= hi; ++i) {
        const T v = static_cast<T>(static_cast<U>(i)), w = static_cast<T>(static_cast<U>(lo));
        if (all || i % 97 == 0) heavy(v, w);
        MC_CHECK(light<1>(v) && light<2>(v), "value kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 4;
    }
}
// Enumerations: `reserved(i)` says which values the documentation reserves.
template<class E, class R> void enumeration(const char* nm, long lo, long hi, R reserved) {
    using U = std::underlying_type_t<E>;
    mc::set_ctx(nm);
    long other = lo; while (reserved(other)) ++other;
    for (long i = lo; i <= hi; ++i) if (!reserved(i)) {
        const E v = static_cast<E>(static_cast<U>(i));
        if (hi - lo < 300 || i % 211 == 0) heavy(v, static_cast<E>(static_cast<U>(other)));
        g_reported = 0;
        MC_CHECK(light<1>(v) && light<2>(v) && light<3>(v) && !g_reported, "enumeration value kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 6;
    }
}
enum class S8 : signed char { a = -128, b = 5, SENTINEL = -7 };
enum class U8 : unsigned char { a, b, SENTINEL = 0 };
enum class U8m : unsigned char { a, SENTINEL = 255 };
enum class S16 : short { a, SENTINEL = -32768 };
enum class S16m : short { a, SENTINEL = 32767 };
enum class I64 : long { a, SENTINEL = std::numeric_limits<long>::min() };
enum class S8r : signed char { a, SENTINEL_START = -3, SENTINEL_END = 4 };
enum class U8r : unsigned char { a, SENTINEL_START = 250 };
enum class U8e : unsigned char { a, SENTINEL_START = 10, SENTINEL_END = 12 };
enum class S8s : signed char { a, SENTINEL_START = 100 };
enum class S16r : short { a, SENTINEL_START = -32768, SENTINEL_END = -32000 };
enum class U16r : unsigned short { a, SENTINEL_START = 60000 };
// plain enumerations: every enumerator must be kept
enum class P1 : unsigned char { a, b, c };
enum class P2 : unsigned char { a = 1, b = 130 };
enum class P3 : unsigned char { a = 0, z = 255 };
enum class P4 : unsigned short { a, b = 500 };
enum class P5 : unsigned short { a = 1023, b = 1022 };
enum class P6 : unsigned short { a, b = 1024, c = 65535 };
enum class P7 : unsigned { a, b = 3, c = 0xFFFFFFFF };
enum P8 { p8a, p8b, p8c };
enum P9 : unsigned long { p9a = 7, p9b = 255, p9c = 256 };
enum class P10 : int { a = -1, b = 1 };
enum class P11 : bool { f, t };
enum class P12 : unsigned char {};
enum class P13 : unsigned char { a = 127, b = 128, c = 63, d = 64 };
enum class P14 : signed char { a = -128, b = 127 };
template<class E> void enumerators(const char* nm, std::initializer_list<E> l) { mc::set_ctx(nm); for (E e : l) for (E w : l) { heavy(e, w); MC_CHECK(light<3>(e), "enumerator kept at depth 3"); } }
// ... and the enumerators need not be single: the range is rounded up so that every combination of flags is kept (documented), whatever the last enumerator is
template<unsigned V> struct top8 { enum class e : unsigned char { a = 0, last = V }; };
template<unsigned V> struct top16 { enum class e : unsigned short { a = 0, b = 1, last = V }; };
template<unsigned V> struct top32 { enum e : unsigned { a = 1, last = V }; };
constexpr long round_up(long v) { long p = 1; while (p <= v) p *= 2; return p; }
template<template<unsigned> class E, unsigned... V> void flag_enums(const char* nm) {
    auto one = [&](auto v) {
        constexpr unsigned top = decltype(v)::value; using T = typename E<top>::e;
        mc::set_ctx(nm);
        const T other = T(0);
        for (long i = 0; i < std::max(round_up(top), 2l); ++i) {
            mc::clear(); mc::push("last enumerator", top); mc::push("value", i);
            const T x = static_cast<T>(std::underlying_type_t<T>(i));
            if (i > long(top) - 2 && i < long(top) + 2) heavy(x, other);
            g_reported = 0;
            MC_CHECK(light<1>(x) && light<2>(x) && light<3>(x) && !g_reported, "a combination of flags is kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 6;
        }
    };
    (one(std::integral_constant<unsigned, V>{}), ...);
}

struct M { char pad[1 << 20]; int x, y; virtual int v1() { return 1; } virtual int v2() { return 2; } int f() { return 3; } int g() const noexcept { return 4; } };
struct B1 { int b1; int f1() { return 1; } }; struct B2 { int b2; int f2() { return 2; } virtual int fv() { return 3; } }; struct Mul : B1, B2 { int m; };
struct VB : virtual B1 { int vb; int fvb() { return 5; } };
template<class T> void some(const char* nm, std::vector<T> l) { mc::set_ctx(nm); for (auto& a : l) heavy(a, l.front()); }
struct Poly { int v; explicit Poly(int x) : v(x) {} virtual ~Poly() = default; virtual int id() const { return 0; } bool operator==(const Poly& o) const { return v == o.v && id() == o.id(); } };
struct PolyD : Poly { using Poly::Poly; int id() const override { return 1; } };
struct PolyM : B1, Poly { PolyM(int x) : Poly(x) { b1 = x; } bool operator==(const PolyM& o) const { return v == o.v && b1 == o.b1; } };
struct PolyV : virtual Poly { int w; PolyV(int x) : Poly(x), w(x) {} PolyV(const PolyV& o) : Poly(o), w(o.w) {} PolyV& operator=(const PolyV&) = default; bool operator==(const PolyV& o) const { return v == o.v && w == o.w; } };
struct Pad { short x; std::uint8_t PADDING = 0; unsigned char y; bool operator==(const Pad& o) const { return x == o.x && y == o.y && PADDING == o.PADDING; } };
struct Pad16 { int x; std::uint16_t PADDING = 0; short y; bool operator==(const Pad16& o) const { return x == o.x && y == o.y; } };
template<class C> void strings(const char* nm) {
    using S = std::basic_string<C>; std::vector<S> l;
    for (int n = 0; n < 70; ++n) { l.push_back(S(std::size_t(n), C('a' + n % 20))); l.push_back(S(std::size_t(n), C(0))); }
    for (int n : {127, 128, 254, 255, 256, 1000, 70000}) l.push_back(S(std::size_t(n), C('z')));
    for (int n : {0, 1, 5}) { S s; s.reserve(300); s.assign(std::size_t(n), C('r')); l.push_back(s); }
    some(nm, l);
    mc::set_ctx(nm, "capacity and in-place edits");
    for (int n = 0; n < 300; ++n) { // the stored string is edited through every size
        opt::option<S> o(S{}); for (int k = 0; k < n % 40; ++k) o->push_back(C('x')); MC_CHECK(o.has_value() && o->size() == std::size_t(n % 40), "string edited in place");
        o->resize(std::size_t(n)); MC_CHECK(o.has_value() && o->size() == std::size_t(n), "string resized in place"); o->clear(); MC_CHECK(o.has_value() && o->empty(), "string cleared in place"); o->shrink_to_fit(); MC_CHECK(o.has_value() && o->empty(), "string shrunk in place"); mc::stats.transitions += 4; ++mc::stats.states; ++mc::stats.traces;
        S s(std::size_t(n), C('q')); opt::option<S> m(std::move(s)); S t(std::move(*m)); MC_CHECK(m.has_value() && t.size() == std::size_t(n), "moved-from string stays engaged"); opt::option<S> c(m); MC_CHECK(c.has_value(), "copy of a moved-from string");
    }
}
template<class T> void vectors(const char* nm, T fill) {
    using V = std::vector<T>; std::vector<V> l;
    for (int n = 0; n < 40; ++n) l.push_back(V(std::size_t(n), fill));
    for (int n : {254, 255, 256, 5000}) l.push_back(V(std::size_t(n), fill));
    { V v; v.reserve(100); l.push_back(v); v.push_back(fill); l.push_back(v); v.clear(); l.push_back(v); }
    some(nm, l);
    mc::set_ctx(nm, "in-place edits");
    for (int n = 0; n < 300; ++n) {
        opt::option<V> o(V{}); o->resize(std::size_t(n)); MC_CHECK(o.has_value() && o->size() == std::size_t(n), "vector resized in place"); o->clear(); o->shrink_to_fit(); MC_CHECK(o.has_value() && o->empty(), "vector emptied in place");
        V s(std::size_t(n), fill); opt::option<V> m(std::move(s)); V t(std::move(*m)); MC_CHECK(m.has_value() && t.size() == std::size_t(n), "moved-from vector stays engaged"); mc::stats.transitions += 4; ++mc::stats.states; ++mc::stats.traces;
    }
}
template<class P> void forged(const char* nm, P set) { // views and smart pointers over every reachable user-space address pattern
    mc::set_ctx(nm);
    for (std::uint64_t i = 0; i < (1 << 16); ++i) { set(i); set(i << 31); set((i << 31) | 0x7FFFFFFF); set((std::uint64_t(1) << 47) - 1 - i); }
    for (int i = 0; i < 47; ++i) for (int j = 0; j <= i; ++j) { set(std::uint64_t(1) << i | std::uint64_t(1) << j); set((std::uint64_t(1) << 47) - 1 - ((std::uint64_t(1) << i | std::uint64_t(1) << j) & ((std::uint64_t(1) << 47) - 1))); }
}
// Members that the user controls freely: the state of allocators, deleters, comparators and the like. The values
// tried are all one- and two-bit patterns and every word of the storage of empty options at several depths.
template<class T> struct al { // stateful allocator; the state is the first or the last thing in a container
    using value_type = T; std::uint64_t id;
    using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::true_type;
    al(std::uint64_t i = 0) : id(i) {} template<class U> al(const al<U>& o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template<class U> bool operator==(const al<U>& o) const { return id == o.id; } template<class U> bool operator!=(const al<U>& o) const { return id != o.id; }
};
struct del { std::uint64_t id; void operator()(int* p) const { delete p; } };
struct cmp { std::uint64_t id; bool operator()(int a, int b) const { return a < b; } };
struct idpoly { virtual ~idpoly() = default; std::uint64_t id = 0; };
struct idfirst { std::uint64_t id; bool flag; };
struct idpad { std::uint64_t id; std::uint8_t PADDING = 0; unsigned char rest[7] = {}; };
template<class T, int D> void empty_words(std::vector<std::uint64_t>& out) {
    alignas(nest<T, D>) unsigned char buf[sizeof(nest<T, D>)] = {};
    auto* o = ::new (static_cast<void*>(buf)) nest<T, D>(); // empty at depth D
    auto scan = [&] { for (std::size_t i = 0; i + 8 <= sizeof buf; i += 4) { std::uint64_t w; std::memcpy(&w, buf + i, 8); for (int k = -2; k <= 2; ++k) out.push_back(w + std::uint64_t(std::int64_t(k))); out.push_back(w & 0xFFFFFFFF); out.push_back(w << 32); } };
    scan();
    if constexpr (D > 1) { o->emplace(); scan(); }
    using N = nest<T, D>; o->~N();
}
template<class T, class Make, class Id> void user_state(const char* nm, Make make, Id id) {
    mc::set_ctx("freely chosen state", nm);
    std::vector<std::uint64_t> words{0, ~std::uint64_t(0)};
    empty_words<T, 1>(words); empty_words<T, 2>(words); empty_words<T, 3>(words);
    for (int i = 0; i < 64; ++i) for (int j = 0; j <= i; ++j) { const std::uint64_t w = std::uint64_t(1) << i | std::uint64_t(1) << j; words.push_back(w); words.push_back(~w); }
    for (std::uint64_t w : words) {
        ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 4; g_reported = 0;
        opt::option<T> a(std::in_place, make(w)); nest<T, 2> b; b.emplace().emplace(make(w)); nest<T, 3> c(std::in_place); c->emplace(); (*c)->emplace(make(w));
        opt::option<T> m(std::move(a));
        const bool k = a.has_value() && m.has_value() && b && *b && c && *c && **c && id(*m) == w && id(**b) == w && id(***c) == w && !g_reported;
        if (!k) { mc::clear(); mc::push(nm); mc::push("state", (long long)w); }
        MC_CHECK(k, "kept whatever the state of its allocator, deleter or other free member is");
        MC_CHECK(!k || outside(*m), "outside the reserved range: kept at any nesting depth");
    }
}
int func_a(int x) { return x; }
int func_b(int x) { return -x; }
int main() {
    mc::init();
#if PART == 0
    floats<1>(); floats<2>(); if (mc::thorough()) floats<3>();
#elif PART == 1
    doubles();
    pointer_values<int*>("int*"); pointer_values<const void*>("const void*"); pointer_values<int (*)(int)>("function pointer"); pointer_values<char**>("char**");
#else
    exhaustive<bool, bool>("bool", 0, 1); exhaustive<char, char>("char", -128, 127); exhaustive<signed char, signed char>("signed char", -128, 127);
    exhaustive<unsigned char, unsigned char>("unsigned char", 0, 255); exhaustive<short, short>("short", -32768, 32767); exhaustive<unsigned short, unsigned short>("unsigned short", 0, 65535);
    exhaustive<wchar_t, wchar_t>("wchar_t", 0, 300); exhaustive<char16_t, char16_t>("char16_t", 0, 65535); exhaustive<char32_t, char32_t>("char32_t", 0, 2000);
    some<int>("int", {0, -1, 1, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), 256, 2}); some<long>("long", {0, -1, std::numeric_limits<long>::min(), std::numeric_limits<long>::max(), long(p_lo), long(d_lo)});
    exhaustive<std::byte, unsigned char>("std::byte (unnamed values)", 0, 255); // std::byte has no enumerators: every value is legitimate
    enumeration<S8>("enum SENTINEL schar", -128, 127, [](long i) { return i == -7; });
    enumeration<U8>("enum SENTINEL 0", 0, 255, [](long i) { return i == 0; });
    enumeration<U8m>("enum SENTINEL 255", 0, 255, [](long i) { return i == 255; });
    enumeration<S16>("enum SENTINEL min16", -32768, 32767, [](long i) { return i == -32768; });
    enumeration<S16m>("enum SENTINEL max16", -32768, 32767, [](long i) { return i == 32767; });
    enumeration<S8r>("enum START/END schar", -128, 127, [](long i) { return i >= -3 && i <= 4; });
    enumeration<U8r>("enum START uchar", 0, 255, [](long i) { return i >= 250; });
    enumeration<U8e>("enum START/END uchar", 0, 255, [](long i) { return i >= 10 && i <= 12; });
    enumeration<S8s>("enum START schar", -128, 127, [](long i) { return i >= 100; });
    enumeration<S16r>("enum START/END short", -32768, 32767, [](long i) { return i <= -32000; });
    enumeration<U16r>("enum START ushort", 0, 65535, [](long i) { return i >= 60000; });
    some<I64>("enum SENTINEL int64", {I64::a, I64(-1), I64(std::numeric_limits<long>::max()), I64(std::numeric_limits<long>::min() + 1)});
    enumerators("plain enum 3", {P1::a, P1::b, P1::c}); enumerators("plain enum 1,130", {P2::a, P2::b}); enumerators("plain enum 0,255", {P3::a, P3::z}); enumerators("plain enum 0,500", {P4::a, P4::b});
    enumerators("plain enum 1022,1023", {P5::a, P5::b}); enumerators("plain enum 0,1024,65535", {P6::a, P6::b, P6::c}); enumerators("plain enum 0,3,2^32-1", {P7::a, P7::b, P7::c}); enumerators("unscoped enum", {p8a, p8b, p8c}); enumerators("unscoped enum 7,255,256", {p9a, p9b, p9c});
    flag_enums<top8, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 96, 127, 128, 200, 255>("flags in 8 bits");
    flag_enums<top16, 1, 2, 4, 8, 16, 17, 32, 64, 100, 128, 255, 256, 257, 300, 511, 512, 1000, 1022, 1023>("flags in 16 bits");
    flag_enums<top32, 2, 4, 8, 31, 64, 65, 128, 256, 512, 700>("flags in 32 bits");
    enumerators("signed enum", {P10::a, P10::b}); enumerators("bool enum", {P11::f, P11::t}); enumerators("63,64,127,128", {P13::a, P13::b, P13::c, P13::d}); enumerators("signed char enum", {P14::a, P14::b});
    exhaustive<P12, unsigned char>("enum without enumerators", 0, 255); exhaustive<P14, signed char>("signed enum, all values", -128, 127); exhaustive<P10, int>("int enum", -300, 300);
    some<int M::*>("member pointer", {nullptr, &M::x, &M::y}); some<int Mul::*>("member pointer, multiple inheritance", {nullptr, &Mul::b1, &Mul::b2, &Mul::m}); some<char (M::*)[1 << 20]>("member pointer to the first member", {nullptr, &M::pad}); some<int B1::*>("member pointer at offset 0", {nullptr, &B1::b1}); some<int B2::*>("base member pointer from derived", {nullptr, static_cast<int B2::*>(&Mul::m)});
    mc::set_ctx("member pointers, all offsets"); for (long i = -(1 << 16); i < (1 << 20); ++i) { g_reported = 0; auto p = from<int M::*>(i); MC_CHECK(light<1>(p) && light<2>(p) && !g_reported, "member offset kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 4; }
    some<int (M::*)()>("member function pointer", {nullptr, &M::v1, &M::v2, &M::f}); some<int (M::*)() const noexcept>("member function pointer const noexcept", {nullptr, &M::g}); some<int (Mul::*)()>("member function pointer, multiple inheritance", {nullptr, &Mul::f1, &Mul::f2, &Mul::fv}); some<int (VB::*)()>("member function pointer, virtual base", {nullptr, &VB::fvb});
    some<int (*)(int)>("function pointers", {nullptr, &func_a, &func_b});
    some<std::nullptr_t>("nullptr_t", {nullptr});
    strings<char>("string"); strings<wchar_t>("wstring"); strings<char16_t>("u16string"); strings<char32_t>("u32string");
    vectors<int>("vector<int>", 7); vectors<std::string>("vector<string>", "abc"); vectors<bool>("vector<bool>", true);
    { static char buf[300]; mc::set_ctx("string_view"); std::vector<std::string_view> l{{}, {buf, 0}, {buf, 300}, {"lit"}, {nullptr, 0}}; for (int i = 0; i < 300; ++i) l.push_back({buf + i, 0}), l.push_back({buf, std::size_t(i)});
      for (auto& v : l) { heavy(v, std::string_view("o")); opt::option<std::string_view> o(v); MC_CHECK(o && o->data() == v.data() && o->size() == v.size(), "string_view data and size kept"); } }
    forged("string_view over every address pattern", [](std::uint64_t a) { std::string_view v(reinterpret_cast<const char*>(a), 3); g_reported = 0; opt::option<std::string_view> o(v); opt::option<opt::option<std::string_view>> n(o); MC_CHECK(o && o->data() == v.data() && o->size() == 3 && n && *n && !g_reported && outside(v), "string_view address kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 2; });
    forged("unique_ptr over every address pattern", [](std::uint64_t a) { int* p = reinterpret_cast<int*>(a); g_reported = 0; opt::option<std::unique_ptr<int>> o(std::in_place, p); const bool k = o.has_value() && o->get() == p && outside(*o); if (k) (void)o->release(); MC_CHECK(k && !g_reported && (!a || o.has_value()), "unique_ptr address kept"); ++mc::stats.states; ++mc::stats.traces; ++mc::stats.transitions; });
    auto alloc_id = [](const auto& v) { return v.get_allocator().id; };
    user_state<std::vector<int, al<int>>>("vector with stateful allocator", [](std::uint64_t w) { return std::vector<int, al<int>>(3, 7, al<int>(w)); }, alloc_id);
    user_state<std::vector<bool, al<bool>>>("vector<bool> with stateful allocator", [](std::uint64_t w) { return std::vector<bool, al<bool>>(5, true, al<bool>(w)); }, alloc_id);
    { using S = std::basic_string<char, std::char_traits<char>, al<char>>; user_state<S>("string with stateful allocator", [](std::uint64_t w) { return S("a string that is longer than the small buffer", al<char>(w)); }, alloc_id); }
    { using U = std::unique_ptr<int, del>; user_state<U>("unique_ptr with stateful deleter", [](std::uint64_t w) { return U(nullptr, del{w}); }, [](const U& u) { return u.get_deleter().id; }); }
    { using S = std::set<int, cmp>; user_state<S>("set with stateful comparator", [](std::uint64_t w) { return S(cmp{w}); }, [](const S& x) { return x.key_comp().id; }); }
    { using M = std::map<int, int, std::less<int>, al<std::pair<const int, int>>>; user_state<M>("map with stateful allocator", [](std::uint64_t w) { return M(al<int>(w)); }, alloc_id); }
    user_state<idpoly>("field of a polymorphic class", [](std::uint64_t w) { idpoly p; p.id = w; return p; }, [](const idpoly& p) { return p.id; });
    user_state<idfirst>("field of a class", [](std::uint64_t w) { return idfirst{w, true}; }, [](const idfirst& p) { return p.id; });
    user_state<idpad>("field of a class with PADDING", [](std::uint64_t w) { return idpad{w}; }, [](const idpad& p) { return p.id; });
    { using P = std::pair<std::uint64_t, bool>; user_state<P>("field of a pair", [](std::uint64_t w) { return P(w, true); }, [](const P& p) { return p.first; }); }
    { using P = std::tuple<std::uint64_t, std::string, std::uint64_t>; user_state<P>("field of a tuple", [](std::uint64_t w) { return P(w, "x", w); }, [](const P& p) { return std::get<0>(p) == std::get<2>(p) ? std::get<0>(p) : ~std::get<0>(p); }); }
    { using P = std::array<std::uint64_t, 2>; user_state<P>("element of an array", [](std::uint64_t w) { return P{{w, w}}; }, [](const P& p) { return p[0] == p[1] ? p[0] : ~p[0]; }); }
    { using V = std::variant<std::uint64_t, bool>; user_state<V>("alternative of a variant", [](std::uint64_t w) { return V(w); }, [](const V& v) { return std::get<0>(v); }); }
    { using V = std::optional<std::uint64_t>; user_state<V>("std::optional", [](std::uint64_t w) { return V(w); }, [](const V& v) { return *v; }); }
    user_state<std::uint64_t>("uint64_t", [](std::uint64_t w) { return w; }, [](std::uint64_t w) { return w; });
    user_state<std::string_view>("length of a string_view", [](std::uint64_t w) { return std::string_view(nullptr, w); }, [](const std::string_view& v) { return v.size(); });
    { using F = int (M::*)(); using A = std::array<std::uint64_t, 2>; user_state<F>("adjustment of a member function pointer", [](std::uint64_t w) { return from<F>(A{{std::uint64_t(16), w}}); }, [](const F& f) { return from<A>(f)[1]; }); }
    { using C = std::complex<double>; user_state<C>("imaginary part", [](std::uint64_t w) { return C(1.0, from<double>(w)); }, [](const C& c) { double i = c.imag(); return from<std::uint64_t>(i); }); }
    { mc::set_ctx("unique_ptr"); std::unique_ptr<int> n0, n1(new int(1)); std::unique_ptr<PolyD> n2; MC_CHECK(outside(n0) && outside(n1) && outside(n2), "outside the reserved range: kept at any nesting depth"); }
    { mc::set_ctx("reference_wrapper"); static int objs[64]; for (int& x : objs) { opt::option<std::reference_wrapper<int>> o(std::ref(x)); opt::option<opt::option<std::reference_wrapper<int>>> n(o); auto c = n; MC_CHECK(o && &o->get() == &x && c && *c && &(*c)->get() == &x, "reference_wrapper kept"); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 3; } }
    some<Poly>("polymorphic", {Poly(0), Poly(-1), Poly(89151), Poly(std::numeric_limits<int>::min())}); some<PolyD>("polymorphic derived", {PolyD(1), PolyD(2)}); some<PolyM>("polymorphic, second base", {PolyM(0), PolyM(1), PolyM(-1)}); some<PolyV>("polymorphic, virtual base", {PolyV(0), PolyV(1)});
    mc::set_ctx("PADDING"); for (int x = -32768; x < 32768; x += 3) { Pad p{}; p.x = short(x); p.y = std::uint8_t(x); if (x % 300 == 0) heavy(p, Pad{}); MC_CHECK(light<1>(p) && light<2>(p), "PADDING class kept"); ++mc::stats.states; ++mc::stats.traces; Pad16 q{}; q.x = x; q.y = short(x); MC_CHECK(light<1>(q) && light<3>(q), "PADDING class kept"); mc::stats.transitions += 6; }
    { std::vector<std::pair<bool, int>> l; for (int b = 0; b < 2; ++b) for (int i : {0, 1, 2, 3, 255, -1, 257}) l.push_back({b != 0, i}); some("pair<bool,int>", l); }
    { std::vector<std::pair<int, double>> l; for (int i : {0, 2, -1}) for (double d : {0.0, -1.0, HUGE_VAL}) l.push_back({i, d}); some("pair<int,double>", l); }
    { std::vector<std::tuple<char, const char*, bool>> l; for (int i = 0; i < 4; ++i) for (int b = 0; b < 2; ++b) l.push_back({char(i), i ? "s" : nullptr, b != 0}); some("tuple<char,ptr,bool>", l); }
    { std::vector<std::array<bool, 3>> l; for (int i = 0; i < 8; ++i) l.push_back({{bool(i & 1), bool(i & 2), bool(i & 4)}}); some("array<bool,3>", l); }
    { std::vector<std::array<int, 0>> l(1); some("array<int,0>", l); }
#endif
    return mc::finish();
}
