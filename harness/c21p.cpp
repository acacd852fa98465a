// C21: shapes of aggregates, some of which the reflection library cannot reflect, are payloads with it and without it.
// SHAPE 0: the shapes it can be asked about; 1, 2, 3: an array member, a bit-field, an anonymous union.
#define MC_DIGEST
#include "types.hpp"
#include <any>
namespace {
using seq::adapter;
struct base0 { int b; }; struct empty_base {}; struct base_any { std::any a; bool b; }; struct base_mo { std::unique_ptr<int> p; };
struct derived0 : base0 {}; struct derived1 : empty_base { int x; }; struct derived2 : empty_base, base0 { bool y; }; struct derived3 : derived2 { std::string s; }; struct derived4 : base_any { int z; }; struct derived5 : base_mo { int w; };
struct fa { int operator()(int) const { return 1; } }; struct fb { int operator()(bool) const { return 2; } };
template<class... A> struct overloaded : A... { using A::operator()...; };
union un { int i; float f; }; union un_b { bool b; char c; };
struct empty {}; struct has_any { std::any a; bool b; }; struct greedy_first { struct g { g() = default; template<class X> g(X&&) : hit(1) {} int hit = 0; } a; bool b; };
struct nested { base0 in; bool b; }; struct fin final { int x; bool b; };
struct arrays { int x[3]; bool b; }; struct text { char name[16]; int n; }; struct grid { double d[2][2]; };
struct bits { unsigned a : 3, b : 5; };
struct anon { union { int a; float b; }; int c; };
template<class T, class Mk, class Ix> struct shape : adapter<shape<T, Mk, Ix>, T> { static constexpr int N = 2; static T make(int i) { return Mk{}(i); } static int index(const T& t) { return Ix{}(t); } };
#define SHAPE_OF(an, Type, S, MK, IX) struct mk_##an { Type operator()(int i) const { MK } }; struct ix_##an { int operator()(const Type& t) const { IX } }; struct a_##an : adapter<a_##an, Type> { static constexpr const char* name = S; static constexpr int N = 2; static Type make(int i) { return mk_##an{}(i); } static int index(const Type& t) { return ix_##an{}(t); } };
int two(bool one, bool zero) { return one ? 1 : zero ? 0 : -2; }
SHAPE_OF(d0, derived0, "aggregate with a base only", return (derived0{{i * 7}});, return two(t.b == 7, t.b == 0);)
SHAPE_OF(d1, derived1, "aggregate with an empty base", return (derived1{{}, i * 7});, return two(t.x == 7, t.x == 0);)
SHAPE_OF(d2, derived2, "aggregate with two bases", return (derived2{{}, {i * 7}, i != 0});, return two(t.b == 7 && t.y, t.b == 0 && !t.y);)
SHAPE_OF(d3, derived3, "aggregate with a base with bases", return (derived3{{{}, {i * 7}, i != 0}, std::string(std::size_t(i * 40), 'd')});, return two(t.y && t.b == 7 && t.s.size() == 40, !t.y && t.b == 0 && t.s.empty());)
SHAPE_OF(d4, derived4, "aggregate with a base which holds anything", derived4 r; r.a = std::any(i); r.b = i != 0; r.z = i; return r;, if (!t.a.has_value()) return -2; return two(std::any_cast<int>(t.a) == 1 && t.b && t.z == 1, std::any_cast<int>(t.a) == 0 && !t.b && t.z == 0);)
SHAPE_OF(d5, derived5, "aggregate with a move-only base", derived5 r; if (i) r.p = std::make_unique<int>(3); r.w = i; return r;, return two(t.p && *t.p == 3 && t.w == 1, !t.p && t.w == 0);)
using ov = overloaded<fa, fb>;
SHAPE_OF(ov, ov, "set of overloads", (void)i; return (ov{});, (void)t; return 0;)
SHAPE_OF(un, un, "union", un u; u.i = i * 9; return u;, return two(t.i == 9, t.i == 0);)
SHAPE_OF(unb, un_b, "union with bool", un_b u; u.b = i != 0; return u;, return t.b ? 1 : 0;)
SHAPE_OF(em, empty, "empty aggregate", (void)i; return empty{};, (void)t; return 0;)
SHAPE_OF(any, has_any, "aggregate which starts with any", return (has_any{std::any(i), i != 0});, if (!t.a.has_value()) return -2; return two(std::any_cast<int>(t.a) == 1 && t.b, std::any_cast<int>(t.a) == 0 && !t.b);)
SHAPE_OF(gr, greedy_first, "aggregate which starts with a greedy class", greedy_first g{}; g.b = i != 0; return g;, return t.b ? 1 : 0;)
SHAPE_OF(ne, nested, "aggregate in an aggregate", return (nested{{i * 7}, i != 0});, return two(t.in.b == 7 && t.b, t.in.b == 0 && !t.b);)
SHAPE_OF(fi, fin, "final aggregate", return (fin{i * 7, i != 0});, return two(t.x == 7 && t.b, t.x == 0 && !t.b);)
SHAPE_OF(ar, arrays, "aggregate with an array member", return (arrays{{i, i * 2, i * 3}, i != 0});, return two(t.x[2] == 3 && t.b, t.x[2] == 0 && !t.b);)
SHAPE_OF(tx, text, "aggregate with a text member", text r{}; if (i) std::strcpy(r.name, "name"); r.n = i; return r;, return two(!std::strcmp(t.name, "name") && t.n == 1, !*t.name && t.n == 0);)
SHAPE_OF(gd, grid, "aggregate with a two-dimensional array", grid g{}; g.d[1][1] = i; return g;, return two(t.d[1][1] == 1, t.d[1][1] == 0);)
SHAPE_OF(bi, bits, "aggregate with bit-fields", bits b{}; b.a = unsigned(i) * 5; b.b = unsigned(i) * 31; return b;, return two(t.a == 5 && t.b == 31, t.a == 0 && t.b == 0);)
SHAPE_OF(an, anon, "aggregate with an anonymous union", anon a{}; a.a = i; a.c = i * 2; return a;, return two(t.a == 1 && t.c == 2, t.a == 0 && t.c == 0);)
}
int main() {
    mc::init();
    const int f = 2;
#if SHAPE == 0
    seq::explore_all<a_d0, a_d1, a_d2, a_d4, a_d5>(f, 0);
#elif SHAPE == 4
    seq::explore_all<a_un, a_unb, a_any, a_gr, a_ne, a_fi>(f, 0);
    { mc::set_ctx("shapes with one value"); opt::option<ov> o; MC_CHECK(!o, "empty"); o.emplace(); MC_CHECK(o && (*o)(1) == 1 && (*o)(true) == 2, "set of overloads"); opt::option<empty> e; MC_CHECK(!e, "empty"); e.emplace(); auto c = e; MC_CHECK(e && c, "empty aggregate"); e.reset(); MC_CHECK(!e && c, "empty aggregate"); }
#elif SHAPE == 1
    seq::explore_all<a_ar, a_tx, a_gd>(f, 0);
#elif SHAPE == 2
    seq::explore_all<a_bi>(f, 0);
#else
    seq::explore_all<a_an>(f, 0);
#endif
    return mc::finish();
}
