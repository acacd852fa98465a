// C21: one program, many configurations.  Every observation is folded into a digest per payload kind and subject; run.py compares
// the digests between the configurations this file is built in.
#define MC_DIGEST
#include "types.hpp"
#include <sstream>
namespace {
using namespace ty;
// operation histories and tables
using h0 = list<a_int, a_float, a_sent, a_mfptr>;
using h1 = list<a_str, a_uptr, a_psi>;
using h2 = list<a_polyd, a_aggb, a_mon, a_trn>;
using h3 = list<a_ob, a_opoly, a_poi>;
// tables only
using t0 = list<a_bool, a_double, a_ptr, a_range, a_refl8, a_refl, a_flags, a_refw, a_sv>;
using t1 = list<a_vec, a_sptr, a_cplxf, a_pib, a_tbds, a_ab, a_tlm>;
using t2 = list<a_over, a_agg, a_pads, a_nm, a_st1, a_sentw, a_memw
#if !defined(OPTION_USE_BUILTIN_TRAITS) || OPTION_USE_BUILTIN_TRAITS
    , a_enfp
#endif
    >;
using t3 = list<a_oi, a_os, a_osv, a_oob, a_oref>;
enum class color : unsigned char { red, green };

template<class O, class... Xs> unsigned long long constructible(list<Xs...>) {
    unsigned long long m = 0; int k = 0;
    ((m |= (unsigned long long)(std::is_constructible_v<O, Xs> + 2 * std::is_assignable_v<O&, Xs> + 4 * std::is_convertible_v<Xs, O>) << (3 * k++)), ...);
    return m;
}
template<class T, class = void> struct hashes : std::false_type {};
template<class T> struct hashes<T, std::void_t<decltype(std::hash<T>{}(std::declval<const T&>()))>> : std::true_type {};
template<class T, class = void> struct equals : std::false_type {};
template<class T> struct equals<T, std::void_t<decltype(bool(std::declval<const T&>() == std::declval<const T&>()))>> : std::true_type {};
template<class T, class = void> struct lesses : std::false_type {};
template<class T> struct lesses<T, std::void_t<decltype(bool(std::declval<const T&>() < std::declval<const T&>()))>> : std::true_type {};
template<class X> constexpr int cat() { return std::is_lvalue_reference_v<X> + 2 * std::is_rvalue_reference_v<X> + 4 * std::is_const_v<std::remove_reference_t<X>>; }

template<class T> using universe = list<int, const T&, std::remove_cv_t<T>, const opt::option<T>&, opt::option<T>, const opt::option<T>, opt::none_t, std::in_place_t, const char*, std::string, double, std::nullptr_t, opt::option<int>, const opt::option<const char*>&, color, bool, std::optional<int>>;
template<class T> unsigned long long members() {
    unsigned long long m = 0;
    for (bool b : {std::is_trivially_destructible_v<T>, std::is_copy_constructible_v<T>, std::is_nothrow_copy_constructible_v<T>, std::is_move_constructible_v<T>, std::is_nothrow_move_constructible_v<T>,
             std::is_copy_assignable_v<T>, std::is_nothrow_copy_assignable_v<T>, std::is_move_assignable_v<T>, std::is_nothrow_move_assignable_v<T>, std::is_trivially_copy_constructible_v<T>, std::is_trivially_move_constructible_v<T>,
             std::is_trivially_copy_assignable_v<T>, std::is_trivially_move_assignable_v<T>, std::is_trivially_copyable_v<T>, std::is_nothrow_swappable_v<T>, std::is_swappable_v<T>, hashes<T>::value})
        m = 2 * m + b;
    return m;
}
// what fast math does to the comparisons of the payload itself is not the library's concern; everything else is
#ifdef __FAST_MATH__
    #define FAST " under fast math"
#else
    #define FAST ""
#endif
template<class R> constexpr bool floating = std::is_floating_point_v<R>;
template<class A> void table() {
    using T = typename A::T; using O = opt::option<T>; using R = std::remove_cv_t<T>;
    ++mc::stats.states;
    // what the standard library gives the payload differs between language modes: such payloads are compared where it is the same
    static char sub[4][64];
    std::snprintf(sub[0], 64, "special members, payload %llx", members<T>());
    mc::set_ctx(A::name, sub[0]);
    for (bool b : {std::is_trivially_destructible_v<O>, std::is_copy_constructible_v<O>, std::is_nothrow_copy_constructible_v<O>, std::is_move_constructible_v<O>, std::is_nothrow_move_constructible_v<O>,
             std::is_copy_assignable_v<O>, std::is_nothrow_copy_assignable_v<O>, std::is_move_assignable_v<O>, std::is_nothrow_move_assignable_v<O>, std::is_nothrow_default_constructible_v<O>,
             std::is_trivially_copy_constructible_v<O>, std::is_trivially_move_constructible_v<O>, std::is_trivially_copy_assignable_v<O>, std::is_trivially_move_assignable_v<O>,
             std::is_trivially_copyable_v<O>, std::is_nothrow_swappable_v<O>, std::is_swappable_v<O>, hashes<O>::value})
        mc::obs(b);
    if constexpr (!std::is_aggregate_v<T>) { // C++20 lets aggregates be constructed by parentheses
        std::snprintf(sub[1], 64, "conversions, payload %llx", constructible<T>(universe<T>{}));
        mc::set_ctx(A::name, sub[1]);
        mc::obs(constructible<O>(universe<T>{}));
    }
    mc::set_ctx(A::name, "signatures");
    O* p = nullptr; (void)p;
    for (int x : {cat<decltype(*std::declval<O&>())>(), cat<decltype(*std::declval<const O&>())>(), cat<decltype(*std::declval<O>())>(), cat<decltype(*std::declval<const O>())>(),
             cat<decltype(std::declval<O&>().value())>(), cat<decltype(std::declval<const O>().value())>(), cat<decltype(std::declval<O>().get())>(), cat<decltype(std::declval<const O&>().ptr_or_null())>(),
             int(noexcept(p->has_value())), int(noexcept(*(*p))), int(noexcept(p->reset())), int(noexcept(p->value())), int(noexcept(p->begin())), int(noexcept(p->take()))})
        mc::obs((unsigned long long)x);
    mc::set_ctx(A::name, "layout");
    mc::obs(sizeof(O)); mc::obs(alignof(O)); mc::obs(sizeof(opt::option<O>)); mc::obs(opt::option_traits<O>::max_level);

    // comparisons and hashes of every pair of states
    std::hash<int> hi; (void)hi;
    for (int i = -1; i < A::N; ++i) {
        auto with_option = [](int k, auto f) { if (k < 0) { O o; f(o); } else A::with(k, [&](auto&&... xs) { O o(std::in_place, static_cast<decltype(xs)&&>(xs)...); f(o); }); };
        with_option(i, [&](O& a) {
            mc::set_ctx(A::name, floating<R> ? "comparisons of floating-point values" FAST : "comparisons");
            mc::obs(a == opt::none); mc::obs(opt::none < a); mc::obs(a <= opt::none); mc::obs(opt::none >= a); mc::obs(a > opt::none);
            with_option(A::N > 0 ? 0 : -1, [](O&) {});
            for (int j = -1; j < A::N; ++j) with_option(j, [&](O& b) {
                ++mc::stats.transitions; ++mc::stats.traces;
                if constexpr (equals<R>::value) { mc::obs(a == b); mc::obs(!(a == b)); if (b && !opt::is_option_v<T>) { mc::obs(a == *b); mc::obs(*b == a); } }
                if constexpr (lesses<R>::value && !std::is_pointer_v<R> && !std::is_same_v<R, std::unique_ptr<int>> && !std::is_same_v<R, std::shared_ptr<int>>) {
                    mc::obs(a < b); mc::obs(a <= b); mc::obs(a > b); mc::obs(a >= b);
                    if (b && !opt::is_option_v<T>) { mc::obs(a < *b); mc::obs(*b < a); mc::obs(*b >= a); mc::obs(a <= *b); }
                }
            });
            if constexpr (hashes<O>::value) {
                mc::set_ctx(A::name, floating<R> ? "hash of floating-point values" FAST : "hash");
                constexpr bool addr = std::is_pointer_v<R> || std::is_same_v<R, opt::option<int&>> || std::is_same_v<R, std::unique_ptr<int>> || std::is_same_v<R, std::shared_ptr<int>> || std::is_same_v<R, opt::option<std::unique_ptr<int>>>;
                if constexpr (!addr) mc::obs(std::hash<O>{}(a)); else if (!a) mc::obs(std::hash<O>{}(a));
            }
            // observers and transformations
            mc::set_ctx(A::name, "functional interface");
            if constexpr (!opt::is_option_v<T>) mc::obs(bool(opt::from_nullable(a.ptr_or_null()))); mc::obs(a.has_value_and([](auto& v) { return A::index(v) == 0; }));
            mc::obs(a.map_or(7, [](auto&) { return 8; })); mc::obs(a.map_or_else([] { return 9; }, [](auto&&) { return 10; }));
            mc::obs(bool(a.map([](auto& v) { return A::index(v); }))); mc::obs((unsigned long long)(a.map([](auto& v) { return A::index(v); }).value_or(-9)));
            mc::obs(a.and_then([](auto& v) { return opt::option<int>{A::index(v)}; }).value_or(-9) == i || i < 0);
            mc::obs(opt::option_cast<int>(a.map([](auto&) { return short(5); })).value_or(3));
            mc::obs((unsigned long long)(a.end() - a.begin()));
            mc::obs(bool(opt::zip(a.map([](auto&) { return 1; }), opt::option<int>{2}))); mc::obs(bool(opt::zip_with([](int, int) { return 1; }, a.map([](auto&) { return 1; }), opt::option<int>{})));
            int thrown = MC_EXCEPTIONS || a ? 0 : 1; if (!thrown) MC_TRY { (void)a.value(); } MC_CATCH(const opt::bad_access&) { thrown = 1; } mc::obs((unsigned long long)thrown);
            if (!MC_EXCEPTIONS && !a) thrown = 2; else MC_TRY { (void)a.value_or_throw(); } MC_CATCH(const std::exception&) { thrown = 2; } mc::obs((unsigned long long)thrown);
            int n = 0; for (auto& x : a) { n += 1 + A::index(x); } mc::obs((unsigned long long)n);
        });
    }
    mc::set_ctx(A::name);
}
template<class... As> void histories(list<As...>) { seq::explore_all<As...>(std::getenv("MC_FULL") ? std::atoi(std::getenv("MC_FULL")) : 1, 0); }
template<class... As> void tables(list<As...>) { (table<As>(), ...); }
}
#ifdef EXPLICIT
// the whole class, whether used or not
struct ex_nontriv { ex_nontriv(); ex_nontriv(const ex_nontriv&); ex_nontriv& operator=(const ex_nontriv&); ~ex_nontriv(); };
template class opt::option<int>; template class opt::option<bool>; template class opt::option<std::string>; template class opt::option<int&>; template class opt::option<const int>;
template class opt::option<std::pair<int, bool>>; template class opt::option<std::tuple<int, std::string>>; template class opt::option<ty::poly_d>;
#endif
int main() {
    mc::init(); 
#ifdef GROUP
    histories(ty::GROUP{}); tables(ty::GROUP{});
#elif PART == 0
    histories(h0{}); tables(h0{}); tables(t0{});
#elif PART == 1
    histories(h1{}); tables(h1{}); tables(t1{});
#elif PART == 2
    histories(h2{}); tables(h2{}); tables(t2{});
#else
    histories(h3{}); tables(h3{}); tables(t3{});
#endif
    return mc::finish();
}
