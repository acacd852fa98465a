// C11: | & ^ |= over every pair of operands, engagement and value category.
#include "fn.hpp"
using namespace fn;
using opt::none;
enum { OR, AND, XOR, ORA };
constexpr const char* op_names[] = {"|", "&", "^", "|="};
template<class K> bool val(const opt_of<K>& o, int s) { return o.has_value() == (s >= 0) && (s < 0 || is_value<K>(*o, s)); }
template<class K, cat A, cat B> constexpr bool usable = K::copyable || (A == RV && B == RV);

template<class K> void options(K) {
    using O = opt_of<K>; mc::set_ctx(K::name);
    for (int x = -1; x < K::N; ++x) for (int y = -1; y < K::N; ++y) each_cat([&](auto a_) { each_cat([&](auto b_) {
        constexpr cat A = a_.value, B = b_.value;
        for (int w = 0; w < 4; ++w) {
            // pick: 0 empty, 1 the left operand, 2 the right operand
            const bool ex = x >= 0, ey = y >= 0;
            const int pick = w == OR ? (ex ? 1 : 2) : w == AND ? (ex ? 2 : 0) : w == XOR ? (ex && !ey ? 1 : !ex && ey ? 2 : 0) : (ex ? 1 : 2);
            const int want = pick == 0 ? -1 : pick == 1 ? x : y;
            config cf(op_names[w], cat_name[A], x * 10 + y, B); mc::push(cat_name[B]);
            O l = build<K>(x), r = build<K>(y); clear_log(); OP(operator);
            auto after = [&](const O& res, bool is_assign) {
                const log_t g = lg;
                MC_CHECK(val<K>(res, want), "result is the operand the table names");
                const bool moved = want >= 0 && ((pick == 1 && A == RV && !is_assign) || (pick == 2 && B == RV));
                if (!is_assign) { MC_CHECK(l.has_value() == ex, "left operand's engagement"); if (!(moved && pick == 1)) MC_CHECK(val<K>(l, x), "left operand touched"); }
                MC_CHECK(r.has_value() == ey, "right operand's engagement"); if (!(moved && pick == 2)) MC_CHECK(val<K>(r, y), "right operand touched");
                if constexpr (K::logged) {
                    if (is_assign && pick == 1) MC_CHECK(g.cc + g.mc + g.ca + g.ma == 0, "|= on an engaged option does nothing");
                    else if (want >= 0) { MC_CHECK(moved ? g.cc == 0 : g.cc == 1, "copied from lvalues once, moved from rvalues"); if (moved) MC_CHECK((pick == 1 ? l : r)->v == 77, "moved from rvalues"); }
                    else MC_CHECK(g.cc + g.mc == 0, "nothing copied for an empty result");
                    MC_CHECK(g.ca + g.ma == 0, "nothing is assigned");
                }
            };
            if (w == OR) { if constexpr (usable<K, A, B>) { auto res = as<A>(l) | as<B>(r); MC_CHECK((same<decltype(res), O>), "type of |"); after(res, false); } }
            else if (w == AND) { if constexpr (K::copyable || B == RV) { auto res = as<A>(l) & as<B>(r); MC_CHECK((same<decltype(res), O>), "type of &"); after(res, false); } }
            else if (w == XOR) { if constexpr (usable<K, A, B>) { auto res = as<A>(l) ^ as<B>(r); MC_CHECK((same<decltype(res), O>), "type of ^"); after(res, false); } }
            else { if constexpr (A == LV && (K::copyable || B == RV)) { auto& res = (l |= as<B>(r)); MC_CHECK((same<decltype((l |= as<B>(r))), O&>), "type of |="); MC_CHECK(&res == &l, "|= returns its left operand"); after(res, true); } }
        }
    }); });
    // an operand used twice
    if constexpr (K::copyable) for (int x = -1; x < K::N; ++x) { config cf("same operand twice", "", x); OP(operators); const O l = build<K>(x); MC_CHECK(val<K>(l | l, x) && val<K>(l & l, x) && val<K>(l ^ l, -1) && val<K>(l, x), "a op a"); O m = build<K>(x); m |= m; MC_CHECK(val<K>(m, x), "a |= a"); MC_CHECK(val<K>(l | O(none), x) && val<K>(O(none) | l, x) && val<K>(O(none) & l, -1) && val<K>(l & O(none), -1) && val<K>(l ^ O(none), x) && val<K>(O(none) ^ l, x), "operators with an empty temporary"); m |= none; MC_CHECK(val<K>(m, x), "|= none"); }
}
template<class K> void values(K) {
    using T = typename K::T; using O = opt_of<K>; mc::set_ctx("with a value", K::name);
    for (int x = -1; x < K::N; ++x) for (int y = 0; y < K::N; ++y) each_cat([&](auto a_) { each_cat([&](auto b_) {
        constexpr cat A = a_.value, B = b_.value; const bool ex = x >= 0;
        if constexpr (usable<K, A, B>) if constexpr (!opt::is_option_v<T>) {
            config cf("| value", cat_name[A], x * 10 + y, B); O l = build<K>(x); T v = K::make(y); clear_log(); OP(|); auto res = as<A>(l) | as<B>(v); const log_t g = lg; MC_CHECK((same<decltype(res), T>), "option | value gives a value");
            MC_CHECK(is_value<K>(res, ex ? x : y), "option | value"); MC_CHECK(l.has_value() == ex, "left operand's engagement"); if (!(ex && A == RV)) MC_CHECK(val<K>(l, x), "left operand touched"); if (!(!ex && B == RV)) MC_CHECK(is_value<K>(v, y), "right operand touched");
            if constexpr (K::logged) { const bool moved = ex ? A == RV : B == RV; MC_CHECK(moved ? g.cc == 0 : g.cc == 1, "copied from lvalues, moved from rvalues"); if (moved) MC_CHECK((ex ? l->v : v.v) == 77, "moved from rvalues"); }
        }
        if constexpr (A == LV && (K::copyable || B == RV)) if constexpr (!opt::is_option_v<T>) {
            config cf("|= value", cat_name[B], x * 10 + y); O l = build<K>(x); T v = K::make(y); clear_log(); OP(|=); auto& res = (l |= as<B>(v)); const log_t g = lg; MC_CHECK(&res == &l, "|= returns its left operand"); MC_CHECK(val<K>(l, ex ? x : y), "option |= value"); if (!(!ex && B == RV)) MC_CHECK(is_value<K>(v, y), "right operand touched");
            if constexpr (K::logged) { MC_CHECK(ex ? g.cc + g.mc == 0 : (B == RV ? (g.cc == 0 && v.v == 77) : g.cc == 1), "|= stores only into an empty option"); MC_CHECK(g.ca + g.ma == 0, "nothing is assigned"); }
        }
    }); });
}
// & between different payloads
template<class K1, class K2> void mixed(K1, K2) {
    mc::set_ctx(K1::name, K2::name);
    for (int x = -1; x < K1::N; ++x) for (int y = -1; y < K2::N; ++y) each_cat([&](auto a_) { each_cat([&](auto b_) {
        constexpr cat A = a_.value, B = b_.value; if constexpr (K2::copyable || B == RV) {
            config cf("& of different payloads", cat_name[A], x * 10 + y, B); auto l = build<K1>(x); auto r = build<K2>(y); OP(&); auto res = as<A>(l) & as<B>(r); MC_CHECK((same<decltype(res), opt_of<K2>>), "type of &"); MC_CHECK(val<K2>(res, x >= 0 ? y : -1), "&"); MC_CHECK(val<K1>(l, x), "left operand touched"); MC_CHECK(r.has_value() == (y >= 0), "right operand's engagement"); if (!(x >= 0 && B == RV)) MC_CHECK(val<K2>(r, y), "right operand touched"); }
    }); });
}
int main() {
    mc::init();
#if PART == 0
    kinds<k_int, k_bool, k_str, k_opt, k_l0, k_l1, k_mo>::each([](auto k) { options(k); });
#elif PART == 1
    kinds<k_dbl, k_ptr, k_enum, k_vec, k_sv, k_pair>::each([](auto k) { options(k); });
#elif PART == 2
    kinds<k_tup, k_arr, k_agg, k_opti, k_po, k_up>::each([](auto k) { options(k); });
#else
    movable_kinds::each([](auto k) { values(k); });
    mixed(k_int{}, k_bool{}); mixed(k_bool{}, k_str{}); mixed(k_str{}, k_int{}); mixed(k_mo{}, k_opt{}); mixed(k_opt{}, k_up{}); mixed(k_up{}, k_l1{}); mixed(k_agg{}, k_pair{});
    mc::set_ctx("conversions");
    for (int s = 0; s < 2; ++s) { config cf("|", "", s); OP(|); opt::option<std::string> a; if (s) a = "stored"; const auto& c = a;
        auto r = c | "dflt"; MC_CHECK((same<decltype(r), std::string>), "type"); MC_CHECK(r == (s ? "stored" : "dflt"), "option | convertible"); MC_CHECK((opt::option<std::string>(a) | "dflt") == (s ? "stored" : "dflt"), "option | convertible");
        opt::option<long> l; if (s) l = 1L << 40; MC_CHECK((l | 7) == (s ? 1L << 40 : 7) && (same<decltype(l | 7), long>), "no narrowing to the default's type"); opt::option<const int> ci = s ? opt::option<const int>(4) : opt::option<const int>(); MC_CHECK((ci | 9) == (s ? 4 : 9) && (same<decltype(ci | 9), int>), "const payload");
        opt::option<std::string> b; if (s) b = "stored"; b |= "literal"; MC_CHECK(b == (s ? "stored" : "literal"), "|= of a convertible value"); opt::option<std::string> d; if (s) d = "stored"; d |= opt::option<const char*>("other"); MC_CHECK(d == (s ? "stored" : "other"), "|= of a convertible option"); opt::option<std::string> e; if (s) e = "stored"; e |= opt::option<const char*>(); MC_CHECK(e.has_value() == bool(s), "|= of an empty convertible option");
        opt::option<opt::option<bool>> n; if (s) n.emplace(true); n |= true; MC_CHECK(n.has_value() && *n == true, "|= of the innermost value"); opt::option<opt::option<bool>> n2; if (s) n2.emplace(true); opt::option<bool> ne; auto n3 = n2; n3 |= opt::option<bool>(false); MC_CHECK(n3.has_value() && *n3 == (s == 1), "|= of an inner option"); auto v = n2 | opt::option<opt::option<bool>>(opt::option<bool>()); MC_CHECK(v.has_value() && v->has_value() == bool(s), "| with an engaged empty option"); }
    mc::set_ctx("references");
    for (int m = 0; m < 4; ++m) { config cf("references", "", m); OP(operators); int i = 1, j = 2; opt::option<int&> a, b; if (m & 1) a = i; if (m & 2) b = j; const int* pa = m & 1 ? &i : nullptr; const int* pb = m & 2 ? &j : nullptr;
        MC_CHECK((a | b).ptr_or_null() == (pa ? pa : pb) && (a & b).ptr_or_null() == (pa ? pb : nullptr) && (a ^ b).ptr_or_null() == (!pa ? pb : !pb ? pa : nullptr), "operators of references rebind"); auto& r = (a |= b); MC_CHECK(&r == &a && a.ptr_or_null() == (pa ? pa : pb) && b.ptr_or_null() == pb && i == 1 && j == 2, "|= of references rebinds"); a |= j; MC_CHECK(a.ptr_or_null() == (pa ? pa : &j) && i == 1 && j == 2, "|= of a referent binds"); }
#endif
    return mc::finish();
}
