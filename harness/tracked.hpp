// Tracked payload types (object registry + allocation balance), optionally with throw points.
#pragma once
#include "seq.hpp"
#include <array>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#ifndef TRK_THROWING
    #define TRK_THROWING false
#endif

namespace tt {
constexpr bool X = TRK_THROWING;
using C = trk::core<X>;
inline void pt() { if constexpr (X) trk::may_throw(); }

struct plain : C { using C::C; };
struct niche : C { using C::C; niche() : C(1) {} };                       // custom traits on the int member
struct niche2 : C { using C::C; };                      // custom traits, two levels (ends the chain of nested options)
struct poly { C c; poly(int i) : c(i) {} virtual ~poly() = default; bool operator==(const poly& o) const { return c == o.c; } };
struct poly_d : poly { C d; poly_d(int i) : poly(i), d(i) {} bool operator==(const poly_d& o) const { return c == o.c && d == o.d; } };
struct pad_first { std::uint32_t PADDING = 0; C c; pad_first(int i) : c(i) {} bool operator==(const pad_first& o) const { return c == o.c; } };
struct pad_last { C c; std::uint8_t PADDING = 0; pad_last(int i) : c(i) {} bool operator==(const pad_last& o) const { return c == o.c; } };
struct agg { bool b; C c; bool operator==(const agg& o) const { return b == o.b && c == o.c; } };
struct move_only : C { using C::C; move_only(const move_only&) = delete; move_only& operator=(const move_only&) = delete; move_only(move_only&&) = default; move_only& operator=(move_only&&) = default; };
struct move_only_n : C { using C::C; move_only_n(move_only_n&&) = default; move_only_n& operator=(move_only_n&&) = default; };
struct copy_only : C { using C::C; copy_only(const copy_only&) = default; copy_only& operator=(const copy_only&) = default; };
struct immovable : C { using C::C; immovable(immovable&&) = delete; };
struct immovable_n : C { using C::C; immovable_n(immovable_n&&) = delete; };
struct no_assign : C { using C::C; no_assign(const no_assign&) = default; no_assign(no_assign&&) = default; no_assign& operator=(const no_assign&) = delete; no_assign& operator=(no_assign&&) = delete; };
struct nothrow_move : C { using C::C; nothrow_move(const nothrow_move&) = default; nothrow_move& operator=(const nothrow_move&) = default;
    nothrow_move(nothrow_move&& o) noexcept : C(skip(o)) { trk::armed = keep; o.v = 9; } nothrow_move& operator=(nothrow_move&& o) noexcept { trk::used(this, "assignment to a dead object"); trk::used(&o, "assignment from a dead object"); v = o.v; if (this != &o) o.v = 9; return *this; }
    static inline bool keep; static int skip(const nothrow_move& o) { trk::used(&o, "move constructed from a dead object"); keep = trk::armed; trk::armed = false; return o.v; } };
// trivial assignment, tracked construction and destruction
struct triv_as { int v; triv_as(int i) noexcept(!X) : v(i) { pt(); trk::born(this); } triv_as(const triv_as& o) noexcept(!X) : v(o.v) { trk::used(&o, "copy constructed from a dead object"); pt(); trk::born(this); }
    triv_as& operator=(const triv_as&) = default; ~triv_as() { trk::died(this); } bool operator==(const triv_as& o) const { trk::used(this, "comparison of a dead object"); return v == o.v; } };
struct triv_as_n : triv_as { using triv_as::triv_as; };
// trivially destructible (not in the registry), with throwing constructors; the value is written before the throw
struct triv_d { int v; triv_d(int i) noexcept(!X) : v(i) { pt(); } triv_d(const triv_d& o) noexcept(!X) : v(o.v) { pt(); } triv_d(triv_d&& o) noexcept(!X) : v(o.v) { pt(); o.v = 9; }
    triv_d& operator=(const triv_d& o) noexcept(!X) { pt(); v = o.v; return *this; } triv_d& operator=(triv_d&& o) noexcept(!X) { pt(); v = o.v; if (this != &o) o.v = 9; return *this; } bool operator==(const triv_d& o) const { return v == o.v; } };
struct triv_dn : triv_d { using triv_d::triv_d; };
struct triv_dp { std::uint16_t PADDING = 0; int v; triv_dp(int i) noexcept(!X) : v(i) { pt(); } triv_dp(const triv_dp& o) noexcept(!X) : v(o.v) { pt(); }
    triv_dp& operator=(const triv_dp& o) noexcept(!X) { pt(); v = o.v; return *this; } bool operator==(const triv_dp& o) const { return v == o.v; } };
struct tlike { bool b; C c; tlike(int i) : b(i != 0), c(i) {} bool operator==(const tlike& o) const { return b == o.b && c == o.c; } template<std::size_t I> auto& get() { if constexpr (I == 0) return b; else return c; } template<std::size_t I> auto& get() const { if constexpr (I == 0) return b; else return c; } };
template<class T, int BASE, int LEVELS> struct int_traits {
    static constexpr std::uintmax_t max_level = LEVELS;
    static std::uintmax_t get_level(const T* p) noexcept { return p->v <= BASE && p->v > BASE - LEVELS ? std::uintmax_t(BASE - p->v) : std::uintmax_t(-1); }
    static void set_level(T* p, std::uintmax_t l) noexcept { if (trk::is_live(p)) mc::fail("empty state written over a live object", ""); p->v = BASE - int(l); }
};
}
template<> struct opt::option_traits<tt::niche> : tt::int_traits<tt::niche, -100, 200> {};
template<> struct opt::option_traits<tt::niche2> : tt::int_traits<tt::niche2, -50, 2> {};
template<> struct opt::option_traits<tt::move_only_n> : tt::int_traits<tt::move_only_n, -100, 3> {};
template<> struct opt::option_traits<tt::immovable_n> : tt::int_traits<tt::immovable_n, -100, 3> {};
template<> struct opt::option_traits<tt::triv_as_n> : tt::int_traits<tt::triv_as_n, -100, 3> {};
template<> struct opt::option_traits<tt::triv_dn> : tt::int_traits<tt::triv_dn, -100, 3> {};
template<> struct std::tuple_size<tt::tlike> : std::integral_constant<std::size_t, 2> {};
template<> struct std::tuple_element<0, tt::tlike> { using type = bool; };
template<> struct std::tuple_element<1, tt::tlike> { using type = tt::C; };

namespace tt {
// PER = tracked objects inside one value; those lie inside the option's own bytes.
template<class Self, class T_, int PER> struct ta : seq::adapter<Self, T_> {
    using T = T_;
    static constexpr int N = 2;
    static constexpr bool move_keeps = false;
    static int value_live(int i) { return i < 0 ? 0 : PER; }
    static T make(int i) { pt(); return T(i + 1); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(i + 1); }
    static int index(const T& t) { return Self::num(t) - 1 >= 0 && Self::num(t) - 1 < N ? Self::num(t) - 1 : -2; }
    static int num(const T& t) { trk::used(&t, "value read from a dead object"); return t.v; }
    template<class W> static int expected(const typename W::O& o, int m) { return !o.has_value() ? 0 : m == seq::MOVED ? (Self::moved_live(*o)) : Self::value_live(m); }
    static int moved_live(const T&) { return PER; }
    template<class W> static void invariant(W& w) {
        const int ea = expected<W>(w.a(), w.ma), eb = expected<W>(w.b(), w.mb);
        MC_CHECK(trk::count_in(w.ca.bytes, sizeof w.ca.bytes) == ea, "objects alive in the left option differ from its state");
        MC_CHECK(trk::count_in(w.cb.bytes, sizeof w.cb.bytes) == eb, "objects alive in the right option differ from its state");
        MC_CHECK(trk::n_live == w.objects + ea + eb, "objects alive outside of the options");
    }
    template<class W> static void engaged_is_alive(W& w) {
        const int na = trk::count_in(w.ca.bytes, sizeof w.ca.bytes), nb = trk::count_in(w.cb.bytes, sizeof w.cb.bytes);
        const int ea = w.a().has_value() ? Self::moved_live(*w.a()) : 0, eb = w.b().has_value() ? Self::moved_live(*w.b()) : 0;
        MC_CHECK(na == ea, "after an exception: objects alive in the left option differ from its state");
        MC_CHECK(nb == eb, "after an exception: objects alive in the right option differ from its state");
    }
};
#define TA(an, Type, PER, S, ...) struct an : ta<an, Type, PER> { static constexpr const char* name = S; __VA_ARGS__ };
using pbn = std::pair<bool, C>; using pnb = std::pair<C, bool>; using pnn = std::pair<niche, niche2>; using t3 = std::tuple<C, bool, niche>;
using ar2 = std::array<C, 2>; using arn = std::array<niche, 2>; using enf = opt::enforce<niche>;
TA(a_plain, plain, 1, "no traits")
TA(a_niche, niche, 1, "custom traits")
TA(a_niche2, niche2, 1, "custom traits, two levels")
TA(a_poly, poly, 1, "polymorphic", static int num(const T& t) { trk::used(&t.c, "value read from a dead object"); return t.c.v; } )
TA(a_polyd, poly_d, 2, "polymorphic derived", static int num(const T& t) { return t.c.v == t.d.v ? t.c.v : -1; })
TA(a_padf, pad_first, 1, "PADDING first", static int num(const T& t) { return t.c.v; })
TA(a_padl, pad_last, 1, "PADDING last", static int num(const T& t) { return t.c.v; })
TA(a_agg, agg, 1, "aggregate", static T make(int i) { pt(); return T{i != 0, C(i + 1)}; } template<class F> static decltype(auto) with(int i, F&& f) { return f(i != 0, i + 1); } static int num(const T& t) { return t.c.v == 9 || t.b == (t.c.v == 2) ? t.c.v : -1; })
TA(a_mo, move_only, 1, "move only")
TA(a_mon, move_only_n, 1, "move only with traits")
TA(a_co, copy_only, 1, "copy only")
TA(a_im, immovable, 1, "immovable")
TA(a_imn, immovable_n, 1, "immovable with traits")
TA(a_na, no_assign, 1, "not assignable")
TA(a_ntm, nothrow_move, 1, "nothrow move, throwing copy")
TA(a_ta, triv_as, 1, "trivially assignable")
TA(a_tan, triv_as_n, 1, "trivially assignable with traits")
template<class Self, class T, int PER> struct td : ta<Self, T, PER> { static constexpr bool move_keeps = false; static int num(const T& t) { return t.v; } };
struct a_td : td<a_td, triv_d, 0> { static constexpr const char* name = "trivially destructible"; };
struct a_tdn : td<a_tdn, triv_dn, 0> { static constexpr const char* name = "trivially destructible with traits"; };
struct a_tdp : td<a_tdp, triv_dp, 0> { static constexpr const char* name = "trivially destructible with PADDING"; };
TA(a_tl, tlike, 1, "tuple-like", static int num(const T& t) { return t.c.v; })
TA(a_pb, pbn, 1, "pair<bool,tracked>", static T make(int i) { pt(); return T(i != 0, i + 1); } template<class F> static decltype(auto) with(int i, F&& f) { return f(i != 0, i + 1); } static int num(const T& t) { return t.second.v; })
TA(a_pb2, pnb, 1, "pair<tracked,bool>", static T make(int i) { pt(); return T(i + 1, i != 0); } template<class F> static decltype(auto) with(int i, F&& f) { return f(i + 1, i != 0); } static int num(const T& t) { return t.first.v; })
TA(a_pn, pnn, 2, "pair<traits,traits>", static T make(int i) { pt(); return T(i + 1, i + 1); } template<class F> static decltype(auto) with(int i, F&& f) { return f(i + 1, i + 1); } static int num(const T& t) { return t.first.v == t.second.v ? t.first.v : -1; })
TA(a_t3, t3, 2, "tuple<tracked,bool,traits>", static T make(int i) { pt(); return T(i + 1, i != 0, i + 1); } template<class F> static decltype(auto) with(int i, F&& f) { return f(i + 1, i != 0, i + 1); } static int num(const T& t) { return std::get<0>(t).v; })
TA(a_ar, ar2, 2, "array<tracked,2>", static T make(int i) { pt(); return T{{C(i + 1), C(i + 1)}}; } template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); } static int num(const T& t) { return t[0].v == t[1].v ? t[0].v : -1; })
TA(a_arn, arn, 2, "array<traits,2>", static T make(int i) { pt(); return T{{niche(i + 1), niche(i + 1)}}; } template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); } static int num(const T& t) { return t[0].v == t[1].v ? t[0].v : -1; })
TA(a_enf, enf, 1, "enforce<traits>", static int num(const T& t) { return t.m.v; })
// nested: value 0 = empty inner option, value 1 = inner value
template<class Self, class I, int PER> struct na : ta<Self, opt::option<I>, PER> {
    using T = opt::option<I>;
    static T make(int i) { pt(); return i ? T(std::in_place, 1) : T(); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); }
    static int value_live(int m) { return m == 1 ? PER : 0; }
    static int moved_live(const T& t) { return t.has_value() ? PER : 0; }
    static int index(const T& t) { return !t.has_value() ? 0 : t->v == 1 ? 1 : -2; }
};
struct a_on : na<a_on, niche, 1> { static constexpr const char* name = "option<custom traits>"; };
struct a_on2 : na<a_on2, niche2, 1> { static constexpr const char* name = "option<custom traits, two levels>"; };
struct a_op : na<a_op, plain, 1> { static constexpr const char* name = "option<no traits>"; };
struct a_oon2 : ta<a_oon2, opt::option<opt::option<niche2>>, 1> { static constexpr const char* name = "option<option<custom traits, two levels>>"; static constexpr int N = 3;
    static T make(int i) { pt(); return i == 0 ? T() : i == 1 ? T(opt::option<niche2>()) : T(opt::option<niche2>(std::in_place, 1)); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); }
    static int value_live(int m) { return m == 2 ? 1 : 0; }
    static int moved_live(const T& t) { return t.has_value() && t->has_value() ? 1 : 0; }
    static int index(const T& t) { return !t.has_value() ? 0 : !t->has_value() ? 1 : (*t)->v == 1 ? 2 : -2; } };
// heap containers: balance of allocations and objects only at the end
template<class Self, class T_> struct ha : seq::adapter<Self, T_> { static constexpr bool move_keeps = false; };
struct a_str : ha<a_str, std::string> { static constexpr const char* name = "string"; static constexpr int N = 2; static T make(int i) { return std::string(std::size_t(i ? 40 : 2), 'q'); } };
struct a_vs : ha<a_vs, std::vector<std::string>> { static constexpr const char* name = "vector<string>"; static constexpr int N = 2; static T make(int i) { return i ? T{std::string(40, 'a'), "b"} : T{}; } };
struct a_ps : ha<a_ps, std::pair<bool, std::string>> { static constexpr const char* name = "pair<bool,string>"; static constexpr int N = 2; static T make(int i) { return T{i != 0, std::string(std::size_t(i ? 40 : 2), 'q')}; } };
struct a_tsv : ha<a_tsv, std::tuple<std::string, std::vector<int>>> { static constexpr const char* name = "tuple<string,vector<int>>"; static constexpr int N = 2; static T make(int i) { return T{std::string(std::size_t(i ? 40 : 2), 'q'), std::vector<int>(std::size_t(i * 3))}; } };
struct a_up : ha<a_up, std::unique_ptr<C>> { static constexpr const char* name = "unique_ptr"; static constexpr int N = 2; static T make(int i) { return i ? std::make_unique<C>(4) : nullptr; } static int index(const T& p) { return p ? (p->v == 4 ? 1 : -2) : 0; } };
struct a_sp : ha<a_sp, std::shared_ptr<C>> { static constexpr const char* name = "shared_ptr"; static constexpr int N = 2; static T make(int i) { return i ? std::make_shared<C>(4) : nullptr; } static int index(const T& p) { return p ? (p->v == 4 ? 1 : -2) : 0; } };
struct a_os : ha<a_os, opt::option<std::string>> { static constexpr const char* name = "option<string>"; static constexpr int N = 2; static T make(int i) { return i ? T(std::string(40, 'q')) : T(); } static int index(const T& o) { return !o.has_value() ? 0 : o->size() == 40 ? 1 : -2; } };

template<class... As> struct list {};
using g1 = list<a_plain, a_niche, a_niche2, a_poly, a_polyd>;
using g2 = list<a_padf, a_padl, a_agg, a_mo, a_mon, a_co>;
using g3 = list<a_im, a_imn, a_na, a_ntm, a_tl, a_enf, a_ta, a_tan>;
using g4 = list<a_pb, a_pb2, a_pn, a_t3>;
using g5 = list<a_ar, a_arn, a_on, a_on2, a_op>;
using g6 = list<a_oon2, a_str, a_vs, a_ps>;
using g7 = list<a_tsv, a_up, a_sp, a_os>;
using g8 = list<a_td, a_tdn, a_tdp>;
}
