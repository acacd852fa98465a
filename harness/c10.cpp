// C10: zip, zip_with, unzip, flatten, option_cast, make_option, from_nullable, as_option against their definitions.
#include "fn.hpp"
#include <array>
#include <climits>
#include <map>
using namespace fn;
using opt::none;
template<class... F> struct over : F... { using F::operator()...; };
template<class... F> over(F...) -> over<F...>;
template<int I> struct S : L<I> { using L<I>::L; };
template<class T> opt::option<T> mk(int s, int v) { if (s) return opt::option<T>(std::in_place, v); return {}; }
struct cat_seen { int calls = 0; const void* a[3] = {}; int c[3] = {}; };
static cat_seen cs;
template<class X> constexpr int cat_of() { constexpr bool l = std::is_lvalue_reference_v<X>, c = std::is_const_v<std::remove_reference_t<X>>; return l ? (c ? CLV : LV) : (c ? CRV : RV); }
template<int I, class X> void arg(const X* p, int c) { cs.a[I] = p; cs.c[I] = c; }
#define ARG(i, x) arg<i>(std::addressof(x), cat_of<decltype(x)>())

template<class T> void unchanged(const opt::option<T>& o, int s, int v, const char* w) { MC_CHECK(o.has_value() == bool(s) && (!s || o->v == v), w); }
// zip and zip_with over every engagement x category
template<class A, class B, class Cc> void zips(const char* name) {
    mc::set_ctx("zip", name);
    constexpr bool cp = std::is_copy_constructible_v<A> && std::is_copy_constructible_v<B> && std::is_copy_constructible_v<Cc>;
    each_cat([&](auto c0) { each_cat([&](auto c1) {
        constexpr cat C0 = c0.value, C1 = c1.value;
        for (int m = 0; m < 4; ++m) {
            const int s0 = m & 1, s1 = m >> 1; const bool all = s0 && s1;
            if constexpr (cp || (C0 == RV && C1 == RV)) {
                config cf("zip of two", cat_name[C0], m, C1); auto x = mk<A>(s0, 3); auto y = mk<B>(s1, 4); clear_log(); OP(zip);
                auto r = opt::zip(as<C0>(x), as<C1>(y)); const log_t l = lg;
                MC_CHECK((same<decltype(r), opt::option<std::tuple<A, B>>>), "type of zip");
                MC_CHECK(r.has_value() == all, "zip is engaged exactly when all arguments are");
                if (all && r) MC_CHECK(std::get<0>(*r).v == 3 && std::get<1>(*r).v == 4, "zip holds the values in order");
                unchanged(x, s0, all && C0 == RV ? 77 : 3, "zip moves from rvalues only, and only when it returns a value"); unchanged(y, s1, all && C1 == RV ? 77 : 4, "zip moves from rvalues only, and only when it returns a value");
                if constexpr (cp) MC_CHECK(l.cc == (all ? (C0 != RV) + (C1 != RV) : 0) && l.ca == 0 && l.ma == 0, "zip copies lvalues once");
            }
            { // zip_with: arguments seen in place
                config cf("zip_with", cat_name[C0], m, C1); auto x = mk<A>(s0, 3); auto y = mk<B>(s1, 4); cs = {}; clear_log(); OP(zip_with);
                auto f = [](auto&& a, auto&& b) { ++cs.calls; ARG(0, a); ARG(1, b); return a.v * 10 + b.v; };
                auto r = opt::zip_with(f, as<C0>(x), as<C1>(y)); const log_t l = lg;
                MC_CHECK((same<decltype(r), opt::option<int>>), "type of zip_with"); MC_CHECK(cs.calls == all, "zip_with calls the function exactly when all arguments are engaged");
                MC_CHECK(r.has_value() == all && (!r || *r == 34), "result of zip_with");
                if (cs.calls) MC_CHECK(cs.a[0] == x.ptr_or_null() && cs.a[1] == y.ptr_or_null() && cs.c[0] == C0 && cs.c[1] == C1, "zip_with passes the stored objects in order with their categories");
                unchanged(x, s0, 3, "zip_with changed an argument"); unchanged(y, s1, 4, "zip_with changed an argument"); MC_CHECK(l.cc + l.mc == 0, "zip_with copies nothing");
                cs = {}; opt::zip_with([](auto&& a, auto&&) { ++cs.calls; ARG(0, a); }, as<C0>(x), as<C1>(y)); MC_CHECK(cs.calls == all, "zip_with of a void function");
                cs = {}; auto rr = opt::zip_with([](auto&&, auto&& b) -> decltype(b) { ++cs.calls; return static_cast<decltype(b)>(b); }, as<C0>(x), as<C1>(y));
                MC_CHECK((same<decltype(rr), opt::option<as_t<C1, B>>>), "type of zip_with with a reference result"); MC_CHECK(cs.calls == all && rr.has_value() == all && (!rr || static_cast<const void*>(rr.ptr_or_null()) == y.ptr_or_null()), "zip_with returns the very reference");
                auto ro = opt::zip_with([k = m](auto&&, auto&&) { return opt::option<std::string>(std::string(std::size_t(30 + k), 's')); }, as<C0>(x), as<C1>(y));
                MC_CHECK((same<decltype(ro), opt::option<opt::option<std::string>>>) && ro.has_value() == all && (!ro || (*ro)->size() == 33), "zip_with does not flatten");
                auto re = opt::zip_with([](auto&&, auto&&) { return opt::option<bool>(); }, as<C0>(x), as<C1>(y)); MC_CHECK(re.has_value() == all && (!re || !re->has_value()), "zip_with keeps an empty result option");
                auto ru = opt::zip_with([](auto&&, auto&&) { return std::make_unique<int>(8); }, as<C0>(x), as<C1>(y)); MC_CHECK(ru.has_value() == all && (!ru || **ru == 8), "zip_with of a move-only result");
            }
        }
        each_cat([&](auto c2) { // three arguments
            constexpr cat C2 = c2.value;
            if constexpr (cp || (C0 == RV && C1 == RV && C2 == RV)) for (int m = 0; m < 8; ++m) {
                const int s0 = m & 1, s1 = m >> 1 & 1, s2 = m >> 2; const bool all = m == 7; config cf("zip of three", cat_name[C0], m, C1 * 4 + C2);
                auto x = mk<A>(s0, 3); auto y = mk<B>(s1, 4); auto z = mk<Cc>(s2, 5); OP(zip);
                auto r = opt::zip(as<C0>(x), as<C1>(y), as<C2>(z)); MC_CHECK((same<decltype(r), opt::option<std::tuple<A, B, Cc>>>), "type of zip"); MC_CHECK(r.has_value() == all, "zip is engaged exactly when all arguments are");
                if (all && r) MC_CHECK(std::get<0>(*r).v == 3 && std::get<1>(*r).v == 4 && std::get<2>(*r).v == 5, "zip holds the values in order");
                unchanged(x, s0, all && C0 == RV ? 77 : 3, "zip source"); unchanged(y, s1, all && C1 == RV ? 77 : 4, "zip source"); unchanged(z, s2, all && C2 == RV ? 77 : 5, "zip source");
                auto x2 = mk<A>(s0, 3); auto y2 = mk<B>(s1, 4); auto z2 = mk<Cc>(s2, 5); cs = {}; OP(zip_with);
                auto w = opt::zip_with([](auto&& a, auto&& b, auto&& c) { ++cs.calls; ARG(0, a); ARG(1, b); ARG(2, c); return long(a.v * 100 + b.v * 10 + c.v); }, as<C0>(x2), as<C1>(y2), as<C2>(z2));
                MC_CHECK(cs.calls == all && w.has_value() == all && (!w || *w == 345), "zip_with of three");
                if (cs.calls) MC_CHECK(cs.a[0] == x2.ptr_or_null() && cs.a[1] == y2.ptr_or_null() && cs.a[2] == z2.ptr_or_null() && cs.c[0] == C0 && cs.c[1] == C1 && cs.c[2] == C2, "zip_with of three passes the stored objects");
            }
        });
        }); });
}
template<class K> void zip_kinds(K) {
    using T = typename K::T; mc::set_ctx("zip of payload", K::name);
    for (int s = -1; s < K::N; ++s) for (int t = 0; t < 2; ++t) {
        config cf("zip with itself and bool", "", s, t); const auto a = build<K>(s); opt::option<bool> b; if (t) b = false; OP(zip);
        auto r = opt::zip(a, b, a); MC_CHECK((same<decltype(r), opt::option<std::tuple<T, bool, T>>>), "type of zip"); MC_CHECK(r.has_value() == (s >= 0 && t), "engagement of zip");
        if (r && s >= 0) MC_CHECK(is_value<K>(std::get<0>(*r), s) && std::get<1>(*r) == false && is_value<K>(std::get<2>(*r), s), "values of zip");
        auto u = opt::unzip(r); MC_CHECK((same<decltype(u), std::tuple<opt::option<T>, opt::option<bool>, opt::option<T>>>), "unzip of zip");
        const int w = s >= 0 && t ? s : -1; in_state_checked<K>(std::get<0>(u), w, "unzip of zip"); in_state_checked<K>(std::get<2>(u), w, "unzip of zip"); MC_CHECK(std::get<1>(u) == (w >= 0 ? opt::option<bool>(false) : none), "unzip of zip");
        auto one = opt::zip(a); MC_CHECK((same<decltype(one), opt::option<std::tuple<T>>>) && one.has_value() == (s >= 0) && (s < 0 || is_value<K>(std::get<0>(*one), s)), "zip of one");
    }
}
// ---- unzip: every tuple-like x engagement x category ----
template<class TL, class Res, class Mk> void unzips(const char* name, Mk make) {
    mc::set_ctx("unzip", name); constexpr std::size_t N = std::tuple_size_v<TL>;
    constexpr bool cp = std::is_copy_constructible_v<TL>;
    each_cat([&](auto c_) { constexpr cat C = c_.value; if constexpr (cp || C == RV) for (int s = 0; s < 2; ++s) {
        config cf("unzip", cat_name[C], s); opt::option<TL> o; if (s) o.emplace(make()); clear_log(); OP(unzip);
        auto r = opt::unzip(as<C>(o)); const log_t l = lg; MC_CHECK((same<decltype(r), Res>), "type of unzip"); MC_CHECK(o.has_value() == bool(s), "unzip changed the option");
        auto each = [&](auto i_) { constexpr std::size_t I = i_; auto& e = std::get<I>(r); MC_CHECK(e.has_value() == bool(s), "every part of unzip is engaged exactly when the option is"); if (s && e) { MC_CHECK(e->v == int(I) + 1, "unzip holds the elements in order"); if (o) MC_CHECK(std::get<I>(*o).v == (C == RV ? 77 : int(I) + 1), "unzip moves from rvalues and copies from lvalues"); } };
        each(std::integral_constant<std::size_t, 0>{}); if constexpr (N > 1) each(std::integral_constant<std::size_t, 1>{}); if constexpr (N > 2) each(std::integral_constant<std::size_t, 2>{});
        if constexpr (cp) MC_CHECK(l.cc == (s && C != RV ? int(N) : 0), "unzip copies each element of an lvalue once");
    } });
}
// ---- flatten ----
template<class T> void flattens(const char* name) {
    mc::set_ctx("flatten", name); using O1 = opt::option<T>; using O2 = opt::option<O1>; using O3 = opt::option<O2>;
    constexpr bool cp = std::is_copy_constructible_v<T>;
    each_cat([&](auto c_) { constexpr cat C = c_.value; if constexpr (cp || C != CRV) {
        using R = std::conditional_t<C == LV, opt::option<T&>, std::conditional_t<C == CLV, opt::option<const T&>, O1>>;
        auto chk = [&](auto&& r, const T* p, int s, int depth) {
            MC_CHECK((same<std::decay_t<decltype(r)>, R>), "type of flatten"); MC_CHECK(r.has_value() == (s == depth), "flatten is engaged exactly when every level is");
            if (r) { MC_CHECK(r->v == 6, "value of flatten"); if constexpr (C == LV || C == CLV) MC_CHECK(static_cast<const T*>(r.ptr_or_null()) == p, "flatten of an lvalue refers to the very object"); else MC_CHECK(p->v == (C == RV ? 77 : 6), "flatten moves from rvalues and copies const rvalues"); }
        };
        for (int s = 0; s <= 1; ++s) { config cf("flatten depth 1", cat_name[C], s); O1 o; if (s) o.emplace(6); OP(flatten); clear_log(); auto r = opt::flatten(as<C>(o)); MC_CHECK(lg.cc == (C == CRV && s), "flatten copies only const rvalues"); chk(r, o.ptr_or_null(), s, 1); MC_CHECK(o.has_value() == bool(s), "flatten changed the option"); }
        for (int s = 0; s <= 2; ++s) { config cf("flatten depth 2", cat_name[C], s); O2 o; if (s >= 1) o.emplace(); if (s >= 2) o->emplace(6); OP(flatten); clear_log(); auto r = opt::flatten(as<C>(o)); MC_CHECK(lg.cc == (C == CRV && s == 2), "flatten copies only const rvalues"); chk(r, s == 2 ? o->ptr_or_null() : nullptr, s, 2); MC_CHECK(o.has_value() == (s >= 1) && (!o || o->has_value() == (s == 2)), "flatten changed the option"); }
        for (int s = 0; s <= 3; ++s) { config cf("flatten depth 3", cat_name[C], s); O3 o; if (s >= 1) o.emplace(); if (s >= 2) o->emplace(); if (s >= 3) (*o)->emplace(6); OP(flatten); auto r = opt::flatten(as<C>(o)); chk(r, s == 3 ? (*o)->ptr_or_null() : nullptr, s, 3); MC_CHECK(o.has_value() == (s >= 1) && (!o || o->has_value() == (s >= 2)), "flatten changed the option"); }
    } });
}
struct frm { int v; }; struct to { int v; to(const frm& f) : v(f.v + 1) {} to(frm&& f) : v(f.v + 2) { f.v = 77; } explicit to(int x) : v(x + 3) {} to(const frm&&) = delete; };
enum class E8 : unsigned char { a, b, c };
struct lv { int x; }; inline bool operator==(lv a, lv b) { return a.x == b.x; }
template<> struct opt::option_traits<lv> { static constexpr std::uintmax_t max_level = 3; static constexpr std::uintmax_t get_level(const lv* p) noexcept { return p->x >= 100 && p->x < 103 ? std::uintmax_t(p->x - 100) : std::uintmax_t(-1); } static constexpr void set_level(lv* p, std::uintmax_t l) noexcept { p->x = 100 + int(l); } };
struct base { int v = 1; virtual ~base() = default; }; struct der : base {};

int main() {
    mc::init();
#if PART == 0
    zips<L<0>, L<1>, L<2>>("flag, traits, flag"); copyable_kinds::each([](auto k) { zip_kinds(k); });
#elif PART == 1
    zips<L<1>, L<1>, L<0>>("traits, traits, flag"); zips<MO, MO, MO>("move-only");
#else
    mc::set_ctx("zip of references");
    for (int m = 0; m < 4; ++m) { config cf("references", "", m); int i = 1; std::string t = "x"; opt::option<int&> a; if (m & 1) a = i; opt::option<const std::string&> b; if (m & 2) b = t; OP(zip);
        auto r = opt::zip(a, b); MC_CHECK((same<decltype(r), opt::option<std::tuple<int&, const std::string&>>>), "type of zip of references"); MC_CHECK(r.has_value() == (m == 3), "zip of references"); if (r) MC_CHECK(&std::get<0>(*r) == &i && &std::get<1>(*r) == &t, "zip keeps references");
        auto w = opt::zip_with([](int& x, const std::string& y) -> int& { x += int(y.size()); return x; }, a, b); MC_CHECK((same<decltype(w), opt::option<int&>>) && w.has_value() == (m == 3) && i == (m == 3 ? 2 : 1) && (!w || &*w == &i), "zip_with of references");
        auto w2 = opt::zip_with([](auto&& x, auto&& y) { return same<decltype(x), int&> && same<decltype(y), const std::string&>; }, std::move(a), std::as_const(b)); MC_CHECK(w2.has_value() == (m == 3) && w2.value_or(true), "references keep their kind"); }
    unzips<std::tuple<L0, L1, L0>, std::tuple<opt::option<L0>, opt::option<L1>, opt::option<L0>>>("tuple", [] { return std::tuple<L0, L1, L0>(1, 2, 3); });
    unzips<std::pair<L1, L0>, std::pair<opt::option<L1>, opt::option<L0>>>("pair", [] { return std::pair<L1, L0>(1, 2); });
    unzips<std::array<L1, 3>, std::array<opt::option<L1>, 3>>("array", [] { return std::array<L1, 3>{{1, 2, 3}}; });
    unzips<std::array<L0, 2>, std::array<opt::option<L0>, 2>>("array", [] { return std::array<L0, 2>{{1, 2}}; });
    unzips<std::tuple<MO, MO>, std::tuple<opt::option<MO>, opt::option<MO>>>("tuple of move-only", [] { return std::tuple<MO, MO>(1, 2); });
    unzips<std::pair<MO, L0>, std::pair<opt::option<MO>, opt::option<L0>>>("pair with move-only", [] { return std::pair<MO, L0>(1, 2); });
    mc::set_ctx("unzip of special elements");
    for (int s = 0; s < 3; ++s) { config cf("unzip", "", s); OP(unzip); using P = std::pair<opt::option<bool>, bool>; opt::option<P> o; if (s) o.emplace(s == 2 ? opt::option<bool>(true) : opt::option<bool>(), false);
        auto r = opt::unzip(o); MC_CHECK((same<decltype(r), std::pair<opt::option<opt::option<bool>>, opt::option<bool>>>), "type of unzip"); MC_CHECK(r.first.has_value() == (s > 0) && (!s || r.first->has_value() == (s == 2)) && r.second == (s ? opt::option<bool>(false) : none), "an empty element is an engaged part");
        int i = 4; opt::option<std::tuple<int&, bool>> q; if (s) q.emplace(i, true); auto u = opt::unzip(q); MC_CHECK((same<decltype(u), std::tuple<opt::option<int&>, opt::option<bool>>>) && std::get<0>(u).ptr_or_null() == (s ? &i : nullptr), "unzip of reference elements");
        const opt::option<const std::array<bool, 2>> ca = s ? opt::option<const std::array<bool, 2>>(std::array<bool, 2>{{true, false}}) : none; auto v = opt::unzip(ca); MC_CHECK((same<decltype(v), std::array<opt::option<bool>, 2>>) && v[0] == (s ? opt::option<bool>(true) : none) && v[1] == (s ? opt::option<bool>(false) : none), "unzip of a const payload"); }
    flattens<L0>("flag payload"); flattens<L1>("payload with traits"); flattens<MO>("move-only");
    mc::set_ctx("flatten of references");
    for (int s = 0; s < 3; ++s) { config cf("references", "", s); int i = 1; OP(flatten);
        opt::option<opt::option<int&>> a; if (s >= 1) a.emplace(); if (s == 2) *a = i; opt::option<opt::option<int&&>> b; if (s >= 1) b.emplace(); if (s == 2) b->emplace(std::move(i)); opt::option<opt::option<const int&>> c; if (s >= 1) c.emplace(); if (s == 2) *c = i;
        const auto& ca = a; const auto& cb = b;
        auto chk = [&](auto r, const char* w) { MC_CHECK(r.has_value() == (s == 2) && (!r || r.ptr_or_null() == &i), w); };
        MC_CHECK((same<decltype(opt::flatten(a)), opt::option<int&>> && same<decltype(opt::flatten(ca)), opt::option<int&>> && same<decltype(opt::flatten(std::move(a))), opt::option<int&>>), "flatten of an lvalue reference payload"); chk(opt::flatten(a), "flatten"); chk(opt::flatten(ca), "flatten"); chk(opt::flatten(std::move(a)), "flatten");
        MC_CHECK((same<decltype(opt::flatten(b)), opt::option<int&&>> && same<decltype(opt::flatten(cb)), opt::option<int&&>> && same<decltype(opt::flatten(std::move(b))), opt::option<int&&>>), "flatten of an rvalue reference payload"); chk(opt::flatten(b), "flatten"); chk(opt::flatten(cb), "flatten"); chk(opt::flatten(std::move(b)), "flatten");
        MC_CHECK((same<decltype(opt::flatten(c)), opt::option<const int&>> && same<decltype(opt::flatten(std::move(c))), opt::option<const int&>>), "flatten of a const reference payload"); chk(opt::flatten(c), "flatten"); chk(opt::flatten(std::move(c)), "flatten"); }
    mc::set_ctx("option_cast");
    { // all bytes, and boundary values, through every arithmetic cast
        for (int s = 0; s < 2; ++s) for (int v = -300; v <= 300; ++v) { config cf("arithmetic", "", s, v); OP(option_cast);
            const opt::option<int> a = s ? opt::option<int>(v) : none;
            auto chk = [&](auto z) { using To = decltype(z); auto r = opt::option_cast<To>(a); MC_CHECK((same<decltype(r), opt::option<To>>), "type of option_cast"); MC_CHECK(r.has_value() == bool(s) && (!s || *r == To(v)), "option_cast"); auto q = opt::option_cast<To>(opt::option<int>(a)); MC_CHECK(q.has_value() == bool(s) && (!s || *q == To(v)), "option_cast of an rvalue"); };
            chk(char{}); chk((signed char){}); chk((unsigned char){}); chk(short{}); chk(unsigned{}); chk(long{}); chk(0ull); chk(float{}); chk(double{}); chk(bool{}); if (v >= 0 && v < 3) chk(E8{}); }
        for (int s = 0; s < 2; ++s) { config cf("class", "", s); OP(option_cast); opt::option<frm> a; if (s) a.emplace(5); const auto& ca = a;
            auto r = opt::option_cast<to>(a); MC_CHECK(r.has_value() == bool(s) && (!s || (r->v == 6 && a->v == 5)), "option_cast of an lvalue copies"); auto r2 = opt::option_cast<to>(ca); MC_CHECK(r2.has_value() == bool(s) && (!s || r2->v == 6), "option_cast of a const lvalue copies");
            auto r3 = opt::option_cast<to>(std::move(a)); MC_CHECK(r3.has_value() == bool(s) && a.has_value() == bool(s) && (!s || (r3->v == 7 && a->v == 77)), "option_cast of an rvalue moves");
            opt::option<int> i; if (s) i = 4; auto r4 = opt::option_cast<to>(i); MC_CHECK(r4.has_value() == bool(s) && (!s || r4->v == 7), "option_cast uses explicit constructors");
            opt::option<const char*> c; if (s) c = "abc"; MC_CHECK(opt::option_cast<std::string>(c) == (s ? opt::option<std::string>("abc") : none), "option_cast");
            MC_CHECK(opt::option_cast<opt::option<int>>(i).has_value() == bool(s) && (!s || **opt::option_cast<opt::option<int>>(i) == 4), "option_cast to a nested option"); } }
    mc::set_ctx("make_option");
    copyable_kinds::each([](auto k_) { using K = decltype(k_); using T = typename K::T; mc::set_ctx("make_option", K::name); for (int v = 0; v < K::N; ++v) each_cat([&](auto c_) { constexpr cat C = c_.value; config cf("make_option", cat_name[C], v); T x = K::make(v); clear_log(); OP(make_option);
        auto a = opt::make_option(as<C>(x)); const log_t l = lg; MC_CHECK((same<decltype(a), opt::option<T>>), "type of make_option"); in_state_checked<K>(a, v, "make_option"); if constexpr (K::logged) MC_CHECK(C == RV ? (x.v == 77 && l.cc == 0) : (x.v == v && l.cc == 1), "make_option copies lvalues and moves rvalues");
        T y = K::make(v); auto b = opt::make_option<T>(as<C>(y)); MC_CHECK((same<decltype(b), opt::option<T>>), "type of make_option"); in_state_checked<K>(b, v, "make_option<T>"); if constexpr (K::logged) MC_CHECK(y.v == (C == RV ? 77 : v), "make_option<T> copies lvalues and moves rvalues");
        auto n = opt::make_option<opt::option<T>>(K::make(v)); MC_CHECK(n.has_value(), "make_option nested"); if (n) in_state_checked<K>(*n, v, "make_option nested");
        auto e = opt::make_option<opt::option<T>>(); MC_CHECK(e.has_value() && !e->has_value(), "make_option of an empty nested option"); }); });
    mc::set_ctx("make_option");
    { config cf("various"); OP(make_option); int arr[3] = {1, 2, 3}; auto a = opt::make_option(arr); MC_CHECK((same<decltype(a), opt::option<int*>>) && *a == arr, "make_option decays arrays"); auto f = opt::make_option("lit"); MC_CHECK((same<decltype(f), opt::option<const char*>>) && std::string(*f) == "lit", "make_option decays literals");
      auto v = opt::make_option<std::vector<int>>(3, 1); MC_CHECK(v && *v == (std::vector<int>{1, 1, 1}), "make_option forwards arguments with parentheses"); auto il = opt::make_option<std::vector<int>>({3, 1}); MC_CHECK(il && *il == (std::vector<int>{3, 1}), "make_option with an initializer_list"); auto il2 = opt::make_option<std::string>({'a', 'b'}, std::allocator<char>()); MC_CHECK(il2 && *il2 == "ab", "make_option with an initializer_list and arguments");
      auto ag = opt::make_option<AG>(7, true); MC_CHECK(ag && *ag == (AG{7, true}), "make_option of an aggregate"); auto s = opt::make_option<std::string>(3u, 'x'); MC_CHECK(s && *s == "xxx", "make_option arguments"); auto im = opt::make_option<IM>(4); MC_CHECK(im && im->v == 4, "make_option of an immovable type"); auto d = opt::make_option<std::string>(); MC_CHECK(d && d->empty(), "make_option without arguments"); auto mo = opt::make_option(MO(5)); MC_CHECK(mo && mo->v == 5, "make_option of a move-only type"); auto mo2 = opt::make_option(std::make_unique<int>(3)); MC_CHECK(mo2 && **mo2 == 3, "make_option of unique_ptr");
      opt::option<int> in = 3; auto nn = opt::make_option(in); MC_CHECK((same<decltype(nn), opt::option<opt::option<int>>>) && nn && *nn == 3, "make_option wraps an option"); opt::option<int> ne; auto n2 = opt::make_option(ne); MC_CHECK(n2.has_value() && !n2->has_value(), "make_option wraps an empty option"); const opt::option<bool> cne; auto n3 = opt::make_option(cne); MC_CHECK((same<decltype(n3), opt::option<opt::option<bool>>>) && n3.has_value() && !n3->has_value(), "make_option wraps a const empty option"); }
    mc::set_ctx("from_nullable");
    for (int s = 0; s < 2; ++s) { config cf("pointer", "", s); OP(from_nullable); static int i = 3; static der dd; int* p = s ? &i : nullptr; const int* cp = p; der* dp = s ? &dd : nullptr; base* bp = dp; int* const kp = p;
        auto chk = [&](auto r, auto* want, const char* w) { MC_CHECK((same<decltype(r), opt::option<std::remove_pointer_t<decltype(want)>&>>), "type of from_nullable"); MC_CHECK(r.has_value() == bool(s) && r.ptr_or_null() == want, w); };
        chk(opt::from_nullable(p), p, "from_nullable"); chk(opt::from_nullable(cp), cp, "from_nullable"); chk(opt::from_nullable(dp), dp, "from_nullable"); chk(opt::from_nullable(bp), bp, "from_nullable"); chk(opt::from_nullable(kp), p, "from_nullable"); MC_CHECK(noexcept(opt::from_nullable(p)), "from_nullable is noexcept"); MC_CHECK(i == 3, "from_nullable touched the object"); }
    mc::set_ctx("as_option");
    for (int v = -300; v <= 300; ++v) { config cf("custom traits", "", v); OP(as_option); auto r = opt::as_option(lv{v}); MC_CHECK((same<decltype(r), opt::option<lv>>), "type of as_option"); MC_CHECK(r.has_value() == (v != 100), "as_option is empty exactly when the value is the first empty pattern"); if (r) MC_CHECK(r->x == v, "as_option keeps the value"); MC_CHECK(noexcept(opt::as_option(lv{v})), "as_option is noexcept");
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
        opt::option<opt::option<lv>> o; auto n = opt::as_option(opt::as_option(lv{v})); MC_CHECK((same<decltype(n), opt::option<opt::option<lv>>>), "as_option nests"); MC_CHECK(n.has_value() == (v != 101), "as_option of as_option"); if (n) MC_CHECK(n->has_value() == (v != 100), "as_option of as_option");
#endif
    }
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
    { config cf("built-in"); OP(as_option); MC_CHECK(opt::as_option(true) == true && opt::as_option(false) == false, "as_option(bool)"); int i = 0; MC_CHECK(opt::as_option(&i) == &i && opt::as_option(static_cast<int*>(nullptr)) == nullptr, "as_option(pointer)"); MC_CHECK(opt::as_option(1.5) == 1.5 && opt::as_option(-0.0f) == 0.0f, "as_option(floating)"); MC_CHECK(opt::as_option(EN::SENTINEL) == none && opt::as_option(EN::a) == EN::a, "as_option(enum with SENTINEL)");
      unsigned char raw = 2; bool b2; std::memcpy(&b2, &raw, 1); (void)b2; opt::option<bool> e; auto ne = opt::as_option(e); MC_CHECK(ne.has_value() && !ne->has_value(), "as_option of an empty option is engaged"); auto r = opt::as_option(std::ref(i)); MC_CHECK(r && &r->get() == &i, "as_option(reference_wrapper)"); }
#endif
#endif
    return mc::finish();
}
