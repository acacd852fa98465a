// C17: constant evaluation and execution agree over all short operation sequences, and both agree with the model.
#include "mc.hpp"
#include <memory>
#include <tuple>
#include <utility>
#include <opt/option.hpp>
#ifndef DEPTH
    #define DEPTH 2
#endif
using u64 = unsigned long long;
constexpr int NONE = -1, MOVED = 2;
#if __cplusplus >= 202002L
    #define CX20 1
    #define CXD constexpr
#else
    #define CX20 0
    #define CXD
#endif

// ---- literal payloads
#define COMPARES(T) friend constexpr bool operator==(const T& x, const T& y) { return x.v == y.v; } friend constexpr bool operator<(const T& x, const T& y) { return x.v < y.v; } friend constexpr bool operator!=(const T& x, const T& y) { return x.v != y.v; } \
    friend constexpr bool operator>(const T& x, const T& y) { return x.v > y.v; } friend constexpr bool operator<=(const T& x, const T& y) { return x.v <= y.v; } friend constexpr bool operator>=(const T& x, const T& y) { return x.v >= y.v; }
struct agg { int v; short w; COMPARES(agg) };
template<int KIND, bool COPY, bool DTOR> struct lit;
#define LIT_COMMON(KIND, COPY, DTOR) int v; constexpr lit(int i) : v(i) {} COMPARES(lit)
#define MOVES constexpr lit(lit&& o) noexcept : v(o.v) { o.v = 9; } constexpr lit& operator=(lit&& o) noexcept { v = o.v; if (this != &o) o.v = 9; return *this; }
#define COPIES constexpr lit(const lit& o) : v(o.v) {} constexpr lit& operator=(const lit& o) { v = o.v; return *this; }
template<int KIND> struct lit<KIND, true, false> { LIT_COMMON(KIND, true, false) COPIES MOVES };
template<int KIND> struct lit<KIND, false, false> { LIT_COMMON(KIND, false, false) MOVES };
#if CX20
template<int KIND> struct lit<KIND, true, true> { LIT_COMMON(KIND, true, true) COPIES MOVES constexpr ~lit() { v = -77; } };
template<int KIND> struct lit<KIND, false, true> { LIT_COMMON(KIND, false, true) MOVES constexpr ~lit() { v = -77; } };
#endif
template<int KIND> struct tri { int v; constexpr tri(int i) : v(i) {} COMPARES(tri) }; // trivially copyable
template<class T> struct level_traits {
    static constexpr std::uintmax_t max_level = 5;
    static constexpr std::uintmax_t get_level(const T* p) noexcept { return p->v <= -100 && p->v > -105 ? std::uintmax_t(-100 - p->v) : std::uintmax_t(-1); }
    static constexpr void set_level(T* p, std::uintmax_t l) noexcept {
#if CX20
        std::construct_at(p, -100 - int(l));
#else
        p->v = -100 - int(l);
#endif
    }
};
template<bool C, bool D> struct opt::option_traits<lit<1, C, D>> : level_traits<lit<1, C, D>> {};
template<> struct opt::option_traits<tri<1>> : level_traits<tri<1>> {};
constexpr int objs[2] = {21, 22};

// ---- adapters: make value i, recognise it
template<class T_> struct base { using T = T_; static constexpr int moved = 0; static constexpr bool nested = false;
    static constexpr T mk(int i) { return T(i + 1); }
    static constexpr int rd(const T& t) { return t.v == 1 || t.v == 2 ? t.v - 1 : t.v == 9 ? MOVED : -5; } };
struct k_int : base<int> { static constexpr const char* name = "int"; static constexpr int rd(int t) { return t == 1 || t == 2 ? t - 1 : -5; } };
struct k_agg : base<agg> { static constexpr const char* name = "aggregate"; static constexpr agg mk(int i) { return agg{i + 1, short(i + 5)}; } static constexpr int rd(const agg& t) { return (t.v == 1 || t.v == 2) && t.w == t.v + 4 ? t.v - 1 : -5; } };
template<class T_> struct k_moving : base<T_> { static constexpr int moved = 1; };
struct k_lc : k_moving<lit<0, true, false>> { static constexpr const char* name = "flag, user-provided copies and moves"; };
struct k_lm : k_moving<lit<0, false, false>> { static constexpr const char* name = "flag, move only"; };
struct k_tc : k_moving<lit<1, true, false>> { static constexpr const char* name = "traits, user-provided copies and moves"; };
struct k_tm : k_moving<lit<1, false, false>> { static constexpr const char* name = "traits, move only"; };
struct k_f : base<tri<0>> { static constexpr const char* name = "flag, trivially copyable"; };
struct k_t : base<tri<1>> { static constexpr const char* name = "traits, trivially copyable"; };
#if CX20
struct k_ld : k_moving<lit<0, true, true>> { static constexpr const char* name = "flag, destructor"; };
struct k_lmd : k_moving<lit<0, false, true>> { static constexpr const char* name = "flag, destructor, move only"; };
struct k_td : k_moving<lit<1, true, true>> { static constexpr const char* name = "traits, destructor"; };
struct k_tmd : k_moving<lit<1, false, true>> { static constexpr const char* name = "traits, destructor, move only"; };
#endif
struct k_ref : base<const int&> { static constexpr const char* name = "const int&"; static constexpr const int& mk(int i) { return objs[i]; } static constexpr int rd(const int& t) { return &t == &objs[0] ? 0 : &t == &objs[1] ? 1 : -5; } };
template<class I> struct k_nested : base<opt::option<I>> { using T = opt::option<I>; static constexpr bool nested = true; static constexpr T mk(int i) { return i ? T(std::in_place, 7) : T(); } static constexpr int rd(const T& t) { return !t.has_value() ? 0 : 1; } };
struct k_ot : k_nested<tri<1>> { static constexpr const char* name = "option<traits>"; };
struct k_of : k_nested<tri<0>> { static constexpr const char* name = "option<flag>"; };

enum OPS { o_none, o_reset, o_emplace0, o_emplace1, o_try0, o_val0, o_val1, o_cval0, o_copy, o_move, o_copy_b, o_move_b, o_opt1, o_take, o_take_drop, o_take_if, o_swap, o_fswap, o_or_eq, o_or_eq_v, o_or, o_and, o_xor, o_value_or, o_value_or_c,
    o_filter, o_map, o_and_then, o_or_else, o_inspect, o_map_or, o_map_or_else, o_hva, o_iterate, o_access, o_compare, o_compare_v, o_ctor_copy, o_ctor_move, o_convert, o_write, o_zip, o_flatten, o_make, o_N };
constexpr const char* op_name[] = {"a=none", "a.reset", "a.emplace(0)", "a.emplace(1)", "a.try_emplace(0)", "a=value0", "a=value1", "a=const value0", "a=b", "a=move(b)", "b=a", "b=move(a)", "a=option(value1)", "a=b.take", "a.take", "a.take_if", "a.swap(b)", "swap(a,b)", "a|=b", "a|=value", "a|b", "a&b", "a^b", "value_or", "value_or_construct",
    "filter", "map", "and_then", "or_else", "inspect", "map_or", "map_or_else", "has_value_and", "iteration", "access", "comparison", "comparison with a value", "copy construction", "move construction", "conversion", "write through *a", "zip", "flatten", "make_option"};
static_assert(sizeof op_name / sizeof *op_name == o_N);

template<class K> struct machine {
    using T = typename K::T; using O = opt::option<T>;
    static constexpr bool R = std::is_reference_v<T>;
    static constexpr bool CP = R || std::is_copy_constructible_v<T>;
    static constexpr bool available(int op) {
        if (!CP) for (int x : {o_cval0, o_copy, o_copy_b, o_or_eq, o_or, o_and, o_xor, o_value_or, o_value_or_c, o_filter, o_and_then, o_or_else, o_ctor_copy, o_convert, o_zip, o_write, o_flatten}) if (op == x) return false;
        if (R) for (int x : {o_fswap, o_value_or, o_value_or_c, o_write, o_or_eq_v, o_convert, o_filter, o_zip, o_make}) if (op == x) return false;
        if constexpr (CP && !R) if (op == o_zip && opt::option_traits<std::tuple<T, T>>::max_level > 0) return false; // the built-in traits of tuples are not constexpr
        if (K::nested) for (int x : {o_compare_v, o_convert, o_or_eq_v, o_write}) if (op == x) return false;
        return true;
    }
    struct st { O a, b; int ma, mb; u64 h = 0; int bad = 0; 
        constexpr st(int x, int y) : a(), b(), ma(x), mb(y) {} };
    static constexpr int after(int m) { return m == NONE || !K::moved ? m : MOVED; }
    static constexpr int rd(const O& o) { return !o.has_value() ? NONE : K::rd(*o); }
    static constexpr void mix(st& s, u64 x) { s.h = s.h * 1099511628211ull + x + 17; }
    static constexpr void expect(st& s, bool ok, int where) { if (!ok && !s.bad) s.bad = where; mix(s, ok); }
    template<int OP> static constexpr void step(O& a, O& b, st& s) {
        int& ma = s.ma; int& mb = s.mb;
        if constexpr (OP == o_none) { a = opt::none; ma = NONE; }
        else if constexpr (OP == o_reset) { a.reset(); ma = NONE; }
        else if constexpr (OP == o_emplace0) { if constexpr (R) a.emplace(K::mk(0)); else if constexpr (K::nested) a.emplace(); else if constexpr (std::is_aggregate_v<T>) a.emplace(K::mk(0)); else a.emplace(1); ma = 0; }
        else if constexpr (OP == o_emplace1) { a.emplace(K::mk(1)); ma = 1; }
        else if constexpr (OP == o_try0) { a.try_emplace(K::mk(0)); if (ma == NONE) ma = 0; }
        else if constexpr (OP == o_val0) { a = K::mk(0); ma = 0; }
        else if constexpr (OP == o_val1) { a = K::mk(1); ma = 1; }
        else if constexpr (OP == o_cval0) { const T& v = K::mk(0); a = v; ma = 0; }
        else if constexpr (OP == o_copy) { a = b; ma = mb; }
        else if constexpr (OP == o_move) { a = static_cast<O&&>(b); ma = mb; mb = after(mb); }
        else if constexpr (OP == o_copy_b) { b = static_cast<const O&>(a); mb = ma; }
        else if constexpr (OP == o_move_b) { b = static_cast<O&&>(a); mb = ma; ma = after(ma); }
        else if constexpr (OP == o_opt1) { a = O(K::mk(1)); ma = 1; }
        else if constexpr (OP == o_take) { a = b.take(); ma = mb; mb = NONE; }
        else if constexpr (OP == o_take_drop) { O t = a.take(); expect(s, rd(t) == ma, 1); ma = NONE; }
        else if constexpr (OP == o_take_if) { O t = a.take_if([](const auto& x) { return K::rd(x) == 1; }); expect(s, rd(t) == (ma == 1 ? 1 : NONE), 2); if (ma == 1) ma = NONE; }
        else if constexpr (OP == o_swap) { a.swap(b); const int x = ma; ma = mb; mb = x; }
        else if constexpr (OP == o_fswap) { using opt::swap; swap(a, b); const int x = ma; ma = mb; mb = x; }
        else if constexpr (OP == o_or_eq) { a |= b; if (ma == NONE) ma = mb; }
        else if constexpr (OP == o_or_eq_v) { a |= K::mk(1); if (ma == NONE) ma = 1; }
        else if constexpr (OP == o_or) { const O t = a | b; expect(s, rd(t) == (ma != NONE ? ma : mb), 3); }
        else if constexpr (OP == o_and) { const O t = a & b; expect(s, rd(t) == (ma != NONE ? mb : NONE), 4); }
        else if constexpr (OP == o_xor) { const O t = a ^ b; expect(s, rd(t) == (ma == NONE ? mb : mb == NONE ? ma : NONE), 5); }
        else if constexpr (OP == o_value_or) { expect(s, K::rd(a.value_or(K::mk(1))) == (ma == NONE ? 1 : ma), 6); }
        else if constexpr (OP == o_value_or_c) { expect(s, K::rd(a.value_or_construct(K::mk(1))) == (ma == NONE ? 1 : ma), 7); }
        else if constexpr (OP == o_filter) { expect(s, rd(a.filter([](const auto& x) { return K::rd(x) != 0; })) == (ma == 0 ? NONE : ma), 8); }
        else if constexpr (OP == o_map) { const opt::option<int> t = a.map([](const auto& x) { return K::rd(x) + 10; }); expect(s, ma == NONE ? !t.has_value() : t.has_value() && *t == ma + 10, 9); }
        else if constexpr (OP == o_and_then) { const O t = a.and_then([&](const auto&) { return O(K::mk(1)); }); expect(s, rd(t) == (ma == NONE ? NONE : 1), 10); }
        else if constexpr (OP == o_or_else) { const O t = a.or_else([] { return O(K::mk(1)); }); expect(s, rd(t) == (ma == NONE ? 1 : ma), 11); }
        else if constexpr (OP == o_inspect) { int n = 0; a.inspect([&](const auto& x) { n += 1 + K::rd(x); }); expect(s, n == (ma == NONE ? 0 : 1 + ma), 12); }
        else if constexpr (OP == o_map_or) { expect(s, a.map_or(40, [](const auto& x) { return K::rd(x); }) == (ma == NONE ? 40 : ma), 13); }
        else if constexpr (OP == o_map_or_else) { expect(s, a.map_or_else([] { return 41; }, [](const auto& x) { return K::rd(x); }) == (ma == NONE ? 41 : ma), 14); }
        else if constexpr (OP == o_hva) { expect(s, a.has_value_and([](const auto& x) { return K::rd(x) == 1; }) == (ma == 1), 15); }
        else if constexpr (OP == o_iterate) { int n = 0; for (auto&& x : a) n += 3 + K::rd(x); for (auto&& x : static_cast<const O&>(a)) n += 3 + K::rd(x); expect(s, n == (ma == NONE ? 0 : 6 + 2 * ma) && (a.end() == a.begin()) == (ma == NONE), 16); }
        else if constexpr (OP == o_access) {
            expect(s, a.has_value() == (ma != NONE) && bool(a) == (ma != NONE) && (a == opt::none) == (ma == NONE) && (a.ptr_or_null() != nullptr) == (ma != NONE), 17);
            if (ma != NONE) expect(s, K::rd(a.get()) == ma && K::rd(*a) == ma && K::rd(a.value()) == ma && K::rd(a.value_or_throw()) == ma && K::rd(*a.operator->()) == ma && K::rd(*a.ptr_or_null()) == ma && K::rd(a.get_unchecked()) == ma, 18);
        }
        else if constexpr (OP == o_compare) {
            if (ma != MOVED && mb != MOVED) { expect(s, (a == b) == (ma == mb) && (a != b) == (ma != mb) && (a < b) == (ma < mb) && (a > b) == (ma > mb) && (a <= b) == (ma <= mb) && (a >= b) == (ma >= mb), 19); }
        }
        else if constexpr (OP == o_compare_v) { if (ma != MOVED) expect(s, (a == K::mk(1)) == (ma == 1) && (a < K::mk(1)) == (ma < 1) && (K::mk(0) < a) == (ma > 0), 20); }
        else if constexpr (OP == o_ctor_copy) { const O t(a); expect(s, rd(t) == ma && rd(a) == ma, 21); }
        else if constexpr (OP == o_ctor_move) { O t(static_cast<O&&>(a)); expect(s, rd(t) == ma, 22); ma = after(ma); }
        else if constexpr (OP == o_convert) { struct conv { int k; constexpr conv(const T& t) : k(K::rd(t)) {} }; const opt::option<conv> t(a); expect(s, t.has_value() == (ma != NONE) && (ma == NONE || t->k == ma), 23); opt::option<conv> u; u = a; expect(s, u.has_value() == (ma != NONE), 24); }
        else if constexpr (OP == o_write) { if (ma != NONE) { *a = K::mk(1); ma = 1; } }
        else if constexpr (OP == o_zip) { const auto t = opt::zip(a, b); expect(s, t.has_value() == (ma != NONE && mb != NONE), 25); if (t.has_value()) expect(s, K::rd(std::get<0>(*t)) == ma && K::rd(std::get<1>(*t)) == mb, 26); }
        else if constexpr (OP == o_flatten) { if constexpr (K::nested) { const auto t = opt::flatten(a); expect(s, t.has_value() == (ma == 1), 27); } }
        else if constexpr (OP == o_make) { const O t = opt::make_option<T>(K::mk(1)); expect(s, rd(t) == 1, 28); }
    }
    static constexpr void look(const O& a, const O& b, st& s) {
        if (rd(a) != s.ma && !s.bad) s.bad = 100;
        if (rd(b) != s.mb && !s.bad) s.bad = 101;
        mix(s, u64(rd(a) + 2)); mix(s, u64(rd(b) + 2));
    }
    using fn = void (*)(O&, O&, st&);
    template<int OP> static constexpr fn pick() { if constexpr (available(OP)) return &step<OP>; else return nullptr; }
    template<int... Is> static constexpr u64 dispatch(int op, O& a, O& b, st& s, std::integer_sequence<int, Is...>) {
        constexpr fn t[] = {pick<Is>()...};
        if (t[op] == nullptr) return 0;
        t[op](a, b, s);
        return 1;
    }
    static constexpr O start(int m) { if (m == NONE) return O(); return O(std::in_place, K::mk(m)); }
    struct result { u64 h; int bad; };
    static constexpr result seq(int ia, int ib, int op1, int op2, int op3) {
        O a = start(ia), b = start(ib);
        st s(ia, ib);
        look(a, b, s);
        for (int op : {op1, op2, op3}) if (op >= 0) { if (dispatch(op, a, b, s, std::make_integer_sequence<int, o_N>{})) look(a, b, s); }
        return {s.h, s.bad};
    }
    // one operation (depth 1), all second (and third) operations folded (row)
    template<int OP> static constexpr result single() {
        result r{0, 0};
        for (int ia = NONE; ia < 2; ++ia) for (int ib = NONE; ib < 2; ++ib) { const result x = seq1<OP>(ia, ib); r.h = r.h * 31 + x.h; if (!r.bad) r.bad = x.bad; }
        return r;
    }
    template<int OP> static constexpr result seq1(int ia, int ib) {
        O a = start(ia), b = start(ib);
        st s(ia, ib); look(a, b, s); step<OP>(a, b, s); look(a, b, s);
        return {s.h, s.bad};
    }
    static constexpr result row(int op1, int ia, int ib) {
        result r{0, 0};
        for (int op2 = 0; op2 < o_N; ++op2) {
            if (DEPTH == 2) { const result x = seq(ia, ib, op1, op2, -1); r.h = r.h * 31 + x.h; if (!r.bad) r.bad = x.bad; }
            else for (int op3 = 0; op3 < o_N; ++op3) { const result x = seq(ia, ib, op1, op2, op3); r.h = r.h * 31 + x.h; if (!r.bad) r.bad = x.bad; }
        }
        return r;
    }
};

// constant evaluation as a SFINAE test
template<class K, int OP, int IA, int IB> struct e_one { static constexpr auto run() { return machine<K>::template seq1<OP>(IA, IB); } };
template<class K, int OP, int IA, int IB> struct e_row { static constexpr auto run() { return machine<K>::row(OP, IA, IB); } };
template<class E, auto V = E::run().h> constexpr bool is_const(int) { return true; }
template<class E> constexpr bool is_const(...) { return false; }
volatile int zero = 0;

// C++17 cannot change the active union member: there, what need not construct a value in an empty option, of trivial payloads with a flag
template<class K> constexpr bool required17(int op, int ia) {
    using T = typename K::T;
    if (op == o_swap || op == o_fswap) return false; // std::swap is not constexpr
    if constexpr (std::is_reference_v<T>) return true;
    else {
        if (!std::is_trivially_copyable_v<T> || K::nested || opt::option_traits<T>::max_level > 0) return false;
        if (op == o_convert) return ia == NONE;
        for (int x : {o_emplace0, o_emplace1, o_try0, o_val0, o_val1, o_cval0, o_or_eq_v}) if (op == x) return ia != NONE;
        return true;
    }
}
template<class K, int OP, int IA, int IB> void one() {
    using E = e_one<K, OP, IA, IB>;
    mc::clear(); mc::push("a starts as", IA); mc::push("b starts as", IB); mc::push(op_name[OP]);
    ++mc::stats.states; ++mc::stats.transitions; ++mc::stats.traces;
    const auto r = machine<K>::template seq1<OP>(IA + zero, IB + zero);
    MC_CHECK(r.bad == 0, "executed: result differs from the model");
    constexpr bool c = is_const<E>(0);
    if constexpr (c) {
        constexpr auto x = E::run();
        MC_CHECK(x.bad == 0, "constant evaluation: result differs from the model");
        MC_CHECK(x.h == r.h, "constant evaluation and execution differ");
    } else if (CX20 || required17<K>(OP, IA)) MC_CHECK(false, "operation not usable in a constant expression");
    ++(c ? mc::stats.checks : mc::stats.states);
}
template<class K, int OP, int IA, int IB> void row() {
    using E = e_row<K, OP, IA, IB>;
    mc::clear(); mc::push("a starts as", IA); mc::push("b starts as", IB); mc::push(op_name[OP]); mc::push("then every operation");
    mc::stats.states += o_N; mc::stats.transitions += 2 * o_N; mc::stats.traces += DEPTH == 2 ? o_N : o_N * o_N;
    const auto r = machine<K>::row(OP + zero, IA + zero, IB + zero);
    MC_CHECK(r.bad == 0, "executed: result differs from the model");
    if constexpr (is_const<E>(0)) {
        constexpr auto x = E::run();
        MC_CHECK(x.bad == 0, "constant evaluation: result differs from the model");
        MC_CHECK(x.h == r.h, "constant evaluation and execution differ");
    } else MC_CHECK(false, "operation sequence not usable in a constant expression");
}
template<class K, int OP, bool ROWS> void one_op() {
    if constexpr (machine<K>::available(OP)) {
        auto go = [](auto ia, auto ib) { if constexpr (ROWS) row<K, OP, decltype(ia)::value, decltype(ib)::value>(); else one<K, OP, decltype(ia)::value, decltype(ib)::value>(); };
        using n = std::integral_constant<int, NONE>; using z = std::integral_constant<int, 0>; using u = std::integral_constant<int, 1>;
        go(n{}, n{}); go(n{}, z{}); go(n{}, u{}); go(z{}, n{}); go(z{}, z{}); go(z{}, u{}); go(u{}, n{}); go(u{}, z{}); go(u{}, u{});
    }
}
template<class K, int... Is> void all(std::integer_sequence<int, Is...>) { (one_op<K, Is, false>(), ...); if (CX20) (one_op<K, Is, (DEPTH > 1 && CX20)>(), ...); }
template<class... Ks> void run() {
    ((mc::set_ctx(Ks::name), all<Ks>(std::make_integer_sequence<int, o_N>{}), mc::sample(std::string(Ks::name) + ": all initial states x operations" + (CX20 && DEPTH > 1 ? ", then all next operations" : ""))), ...);
}
int main() {
    mc::init();
#if PART == 0
    run<k_int>();
#elif PART == 1
    run<k_agg>();
#elif PART == 2
    run<k_lc>();
#elif PART == 3
    run<k_tc>();
#elif PART == 4
    run<k_f, k_lm>();
#elif PART == 5
    run<k_t, k_tm>();
#elif PART == 6
    run<k_ref>();
#elif PART == 7 && CX20
    run<k_ld, k_lmd>();
#elif PART == 8 && CX20
    run<k_td, k_tmd>();
#elif PART == 9 // without built-in traits, which are not constexpr
    run<k_ot>();
#elif PART == 10
    run<k_of>();
#endif
    return mc::finish();
}
