// Payload types: one adapter per storage strategy / shape of T.
#pragma once
#include "seq.hpp"
#include <array>
#include <bitset>
#include <cmath>
#include <complex>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <tuple>
#include <variant>
#include <vector>

namespace ty {
using seq::adapter;

#define VALS(Type, Count, ...) static constexpr int N = Count; static Type make(int i) { using VT_ = Type; static const std::remove_const_t<VT_> v[] = {__VA_ARGS__}; return v[i]; }
#define NAME(S) static constexpr const char* name = S

// ---------------------------------------------------------------- scalars
struct a_int : adapter<a_int, int> { NAME("int"); VALS(int, 3, 0, -1, 7) };
struct a_bool : adapter<a_bool, bool> { NAME("bool"); VALS(bool, 2, false, true) };
struct a_uchar : adapter<a_uchar, unsigned char> { NAME("unsigned char"); VALS(unsigned char, 3, 0, 255, 2) };
struct a_llong : adapter<a_llong, long long> { NAME("long long"); VALS(long long, 2, 0, -1) };
template<class F> bool bits_eq(F a, F b) { return std::memcmp(&a, &b, sizeof(F)) == 0; }
struct a_float : adapter<a_float, float> { NAME("float"); static constexpr int N = 4;
    static float make(int i) { const float v[] = {0.f, -1.5f, std::numeric_limits<float>::quiet_NaN(), -std::numeric_limits<float>::infinity()}; return v[i]; }
    static bool eq(float a, float b) { return bits_eq(a, b); } };
struct a_double : adapter<a_double, double> { NAME("double"); static constexpr int N = 4;
    static double make(int i) { const double v[] = {-0.0, 2.5, -std::numeric_limits<double>::quiet_NaN(), std::numeric_limits<double>::infinity()}; return v[i]; }
    static bool eq(double a, double b) { return bits_eq(a, b); } };
struct a_ldouble : adapter<a_ldouble, long double> { NAME("long double"); VALS(long double, 2, 0.L, 1.25L) };
inline int ints[4] = {1, 2, 3, 4};
inline int fn0(int x) { return x; }
inline int fn1(int x) { return x + 1; }
struct a_ptr : adapter<a_ptr, int*> { NAME("int*"); VALS(int*, 3, nullptr, &ints[0], &ints[1]) };
struct a_cstr : adapter<a_cstr, const char*> { NAME("const char*"); VALS(const char*, 2, nullptr, "x") };
struct a_vptr : adapter<a_vptr, void*> { NAME("void*"); VALS(void*, 2, nullptr, &ints[2]) };
struct a_fptr : adapter<a_fptr, int (*)(int)> { using P = int (*)(int); NAME("int(*)(int)"); VALS(P, 3, nullptr, &fn0, &fn1) };
struct a_pptr : adapter<a_pptr, int**> { NAME("int**"); static inline int* q[2]; VALS(int**, 2, nullptr, q) };

// ---------------------------------------------------------------- enumerations, member pointers, views
enum class e_sent : int { a = -2, b = 0, c = 9, SENTINEL = 0x7fffffff };
enum class e_sent8 : unsigned char { a, b, SENTINEL };
enum class e_start : unsigned char { a, b, c = 200, SENTINEL_START = 201 };
enum class e_start_i : int { lo = -2147483647 - 1, b = 5, SENTINEL_START = 100 };
enum class e_range : int { a = 0, b = 50, lo = -7, SENTINEL_START = 10, SENTINEL_END = 20 };
enum class e_range1 : unsigned { a, b = 3000000000u, SENTINEL_START = 7, SENTINEL_END = 7 };
enum class e_refl8 : unsigned char { a, b, c, d, e };
enum class e_refl : unsigned { a = 1, b = 500, c = 5000 };
enum e_flags : unsigned { f1 = 1, f2 = 2, f4 = 4 };
enum class e_full : unsigned char { a, z = 255 };
enum class e_signed : int { a = -1, b = 1 };
enum class e_u64 : std::uint64_t { a, b = 17, big = 0xFFFFFFFFFFFFFFFFull };
struct a_sent : adapter<a_sent, e_sent> { NAME("enum SENTINEL:int"); VALS(e_sent, 3, e_sent::a, e_sent::b, e_sent::c) };
struct a_sent8 : adapter<a_sent8, e_sent8> { NAME("enum SENTINEL:uchar"); VALS(e_sent8, 2, e_sent8::a, e_sent8::b) };
struct a_start : adapter<a_start, e_start> { NAME("enum SENTINEL_START:uchar"); VALS(e_start, 3, e_start::a, e_start::b, e_start::c) };
struct a_start_i : adapter<a_start_i, e_start_i> { NAME("enum SENTINEL_START:int"); VALS(e_start_i, 2, e_start_i::lo, e_start_i::b) };
struct a_range : adapter<a_range, e_range> { NAME("enum SENTINEL_START/END:int"); VALS(e_range, 3, e_range::a, e_range::b, e_range::lo) };
struct a_range1 : adapter<a_range1, e_range1> { NAME("enum SENTINEL_START=END"); VALS(e_range1, 2, e_range1::a, e_range1::b) };
struct a_refl8 : adapter<a_refl8, e_refl8> { NAME("enum reflected:uchar"); VALS(e_refl8, 5, e_refl8::a, e_refl8::b, e_refl8::c, e_refl8::d, e_refl8::e) };
struct a_refl : adapter<a_refl, e_refl> { NAME("enum reflected:unsigned"); VALS(e_refl, 3, e_refl::a, e_refl::b, e_refl::c) };
struct a_flags : adapter<a_flags, e_flags> { NAME("flag enum reflected"); static constexpr int N = 4; static e_flags make(int i) { const unsigned v[] = {0, 1, 7, 4}; return e_flags(v[i]); } };
struct a_full : adapter<a_full, e_full> { NAME("enum full range"); VALS(e_full, 2, e_full::a, e_full::z) };
struct a_esigned : adapter<a_esigned, e_signed> { NAME("enum signed"); VALS(e_signed, 2, e_signed::a, e_signed::b) };
struct a_u64 : adapter<a_u64, e_u64> { NAME("enum reflected:uint64"); VALS(e_u64, 3, e_u64::a, e_u64::b, e_u64::big) };
struct S { int x = 1; int y = 2; int f() const { return x; } int g() const { return y; } virtual int h() { return 0; } virtual ~S() = default; };
struct a_mptr : adapter<a_mptr, int S::*> { using P = int S::*; NAME("int S::*"); VALS(P, 3, nullptr, &S::x, &S::y) };
struct a_mfptr : adapter<a_mfptr, int (S::*)() const> { using P = int (S::*)() const; NAME("int (S::*)() const"); VALS(P, 3, nullptr, &S::f, &S::g) };
struct a_vmfptr : adapter<a_vmfptr, int (S::*)()> { using P = int (S::*)(); NAME("virtual int (S::*)()"); VALS(P, 2, nullptr, &S::h) };
struct a_refw : adapter<a_refw, std::reference_wrapper<int>> { NAME("reference_wrapper<int>"); static constexpr int N = 2;
    static std::reference_wrapper<int> make(int i) { return ints[i]; }
    static bool eq(const std::reference_wrapper<int>& a, const std::reference_wrapper<int>& b) { return &a.get() == &b.get(); } };
struct a_sv : adapter<a_sv, std::string_view> { NAME("string_view"); static constexpr int N = 3;
    static std::string_view make(int i) { return i == 0 ? std::string_view{} : i == 1 ? std::string_view{""} : std::string_view{"abc"}; }
    static bool eq(std::string_view a, std::string_view b) { return a == b && (a.data() == nullptr) == (b.data() == nullptr); } };
struct a_sv16 : adapter<a_sv16, std::u16string_view> { NAME("u16string_view"); static constexpr int N = 2; static std::u16string_view make(int i) { return i ? u"zz" : u""; } };

// ---------------------------------------------------------------- library types
struct a_str : adapter<a_str, std::string> { NAME("string"); static constexpr int N = 3;
    static std::string make(int i) { return std::string(std::size_t(i == 0 ? 0 : i == 1 ? 3 : 40), 'q'); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(std::size_t(i == 0 ? 0 : i == 1 ? 3 : 40), 'q'); } };
struct a_wstr : adapter<a_wstr, std::wstring> { NAME("wstring"); static constexpr int N = 2; static std::wstring make(int i) { return i ? std::wstring(40, L'w') : std::wstring(); } };
template<class T> struct stateful_alloc { using value_type = T; int id = 5; stateful_alloc() = default; stateful_alloc(int i) : id(i) {} template<class U> stateful_alloc(const stateful_alloc<U>& o) : id(o.id) {}
    T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); } void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
    template<class U> bool operator==(const stateful_alloc<U>&) const { return true; } template<class U> bool operator!=(const stateful_alloc<U>&) const { return false; } };
struct a_sstr : adapter<a_sstr, std::basic_string<char, std::char_traits<char>, stateful_alloc<char>>> { NAME("string with stateful allocator"); static constexpr int N = 2; static T make(int i) { return i ? T(40, 's') : T(); } };
struct a_vec : adapter<a_vec, std::vector<int>> { NAME("vector<int>"); static constexpr int N = 3; static T make(int i) { return T(std::size_t(i), 7); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(std::size_t(i), 7); } };
struct a_vecb : adapter<a_vecb, std::vector<bool>> { NAME("vector<bool>"); static constexpr int N = 2; static T make(int i) { return i ? T{true, false} : T{}; } };
struct a_vecs : adapter<a_vecs, std::vector<std::string>> { NAME("vector<string>"); static constexpr int N = 2; static T make(int i) { return i ? T{"a", std::string(50, 'b')} : T{}; } };
struct a_uptr : adapter<a_uptr, std::unique_ptr<int>> { NAME("unique_ptr<int>"); static constexpr int N = 2; static T make(int i) { return i ? std::make_unique<int>(4) : nullptr; }
    static int index(const T& p) { return p ? (*p == 4 ? 1 : -2) : 0; } };
struct del { int id = 3; void operator()(int* p) const { delete p; } };
struct a_uptrd : adapter<a_uptrd, std::unique_ptr<int, del>> { NAME("unique_ptr<int,Deleter>"); static constexpr int N = 2; static T make(int i) { return T(i ? new int(4) : nullptr); }
    static int index(const T& p) { return p ? (*p == 4 && p.get_deleter().id == 3 ? 1 : -2) : 0; } };
struct a_sptr : adapter<a_sptr, std::shared_ptr<int>> { NAME("shared_ptr<int>"); static constexpr int N = 2; static inline std::shared_ptr<int> keep = std::make_shared<int>(1); static T make(int i) { return i ? keep : nullptr; } };
struct a_cplxf : adapter<a_cplxf, std::complex<float>> { NAME("complex<float>"); static constexpr int N = 3; static T make(int i) { return i == 0 ? T{} : i == 1 ? T{1.f, 2.f} : T{-1.f, 0.f}; } };
struct a_cplxd : adapter<a_cplxd, std::complex<double>> { NAME("complex<double>"); static constexpr int N = 2; static T make(int i) { return i == 0 ? T{} : T{1., 2.}; } };
struct a_sopt : adapter<a_sopt, std::optional<int>> { NAME("std::optional<int>"); static constexpr int N = 2; static T make(int i) { return i ? T{3} : T{}; } };
struct a_var : adapter<a_var, std::variant<int, std::string>> { NAME("variant<int,string>"); static constexpr int N = 2; static T make(int i) { return i ? T{std::string(30, 'v')} : T{3}; } };
struct a_map : adapter<a_map, std::map<int, int>> { NAME("map<int,int>"); static constexpr int N = 2; static T make(int i) { return i ? T{{1, 2}} : T{}; } };
struct a_func : adapter<a_func, std::function<int()>> { NAME("function<int()>"); static constexpr int N = 2; static T make(int i) { return i ? T([] { return 5; }) : T{}; } static int index(const T& f) { return f ? (f() == 5 ? 1 : -2) : 0; } };

// ---------------------------------------------------------------- composites
struct a_pib : adapter<a_pib, std::pair<int, bool>> { NAME("pair<int,bool>"); VALS(T, 3, {0, false}, {0, true}, {5, true})
    template<class F> static decltype(auto) with(int i, F&& f) { auto t = make(i); return f(t.first, t.second); } };
struct a_pbi : adapter<a_pbi, std::pair<bool, int>> { NAME("pair<bool,int>"); VALS(T, 3, {false, 0}, {true, 0}, {true, 9}) };
struct a_pii : adapter<a_pii, std::pair<int, int>> { NAME("pair<int,int>"); VALS(T, 2, {0, 0}, {1, 2}) };
struct a_psi : adapter<a_psi, std::pair<std::string, int>> { NAME("pair<string,int>"); static constexpr int N = 2; static T make(int i) { return i ? T{std::string(33, 'p'), 1} : T{"", 0}; } };
struct a_pbs : adapter<a_pbs, std::pair<bool, std::string>> { NAME("pair<bool,string>"); static constexpr int N = 2; static T make(int i) { return i ? T{true, std::string(33, 'p')} : T{false, ""}; } };
struct a_pdf : adapter<a_pdf, std::pair<double, float>> { NAME("pair<double,float>"); VALS(T, 2, {0., 0.f}, {1., 2.f}) };
struct a_t1 : adapter<a_t1, std::tuple<bool>> { NAME("tuple<bool>"); VALS(T, 2, T{false}, T{true}) };
struct a_t1i : adapter<a_t1i, std::tuple<int>> { NAME("tuple<int>"); VALS(T, 2, T{0}, T{1}) };
struct a_t3 : adapter<a_t3, std::tuple<int, double, bool>> { NAME("tuple<int,double,bool>"); VALS(T, 2, T{0, 0., false}, T{3, 4., true})
    template<class F> static decltype(auto) with(int i, F&& f) { auto t = make(i); return f(std::get<0>(t), std::get<1>(t), std::get<2>(t)); } };
struct a_tbds : adapter<a_tbds, std::tuple<bool, int*, std::string>> { NAME("tuple<bool,int*,string>"); static constexpr int N = 2; static T make(int i) { return i ? T{true, &ints[0], std::string(40, 't')} : T{false, nullptr, ""}; } };
struct a_ab : adapter<a_ab, std::array<bool, 3>> { NAME("array<bool,3>"); static constexpr int N = 3; static T make(int i) { return i == 0 ? T{{false, false, false}} : i == 1 ? T{{true, false, true}} : T{{false, true, true}}; } };
struct a_ai : adapter<a_ai, std::array<int, 2>> { NAME("array<int,2>"); static constexpr int N = 2; static T make(int i) { return i ? T{{1, 2}} : T{{0, 0}}; } };
struct a_as : adapter<a_as, std::array<std::string, 2>> { NAME("array<string,2>"); static constexpr int N = 2; static T make(int i) { return i ? T{{"a", std::string(40, 'z')}} : T{}; } };
struct a_pui : adapter<a_pui, std::pair<std::unique_ptr<int>, int>> { NAME("pair<unique_ptr,int>"); static constexpr int N = 2; static T make(int i) { return i ? T{std::make_unique<int>(4), 1} : T{nullptr, 0}; }
    static int index(const T& p) { return p.first ? (*p.first == 4 && p.second == 1 ? 1 : -2) : (p.second == 0 ? 0 : -2); } };
struct a_tpc : adapter<a_tpc, std::tuple<std::pair<int, bool>, char>> { NAME("tuple<pair<int,bool>,char>"); static constexpr int N = 2; static T make(int i) { return i ? T{{1, true}, 'c'} : T{{0, false}, 0}; } };

// tuple-like with member get
struct tl_m { int a = 0; bool b = false; short c = 0;
    template<std::size_t I> auto& get() { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; }
    template<std::size_t I> auto& get() const { if constexpr (I == 0) return a; else if constexpr (I == 1) return b; else return c; }
    bool operator==(const tl_m& o) const { return a == o.a && b == o.b && c == o.c; } };
// tuple-like with ADL get
struct tl_a { bool b; int n; double d; bool operator==(const tl_a& o) const { return b == o.b && n == o.n && d == o.d; } };
template<std::size_t I> auto& get(tl_a& x) { if constexpr (I == 0) return x.b; else if constexpr (I == 1) return x.n; else return x.d; }
template<std::size_t I> auto& get(const tl_a& x) { if constexpr (I == 0) return x.b; else if constexpr (I == 1) return x.n; else return x.d; }
}
template<> struct std::tuple_size<ty::tl_m> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, ty::tl_m> { using type = int; };
template<> struct std::tuple_element<1, ty::tl_m> { using type = bool; };
template<> struct std::tuple_element<2, ty::tl_m> { using type = short; };
template<> struct std::tuple_size<ty::tl_a> : std::integral_constant<std::size_t, 3> {};
template<> struct std::tuple_element<0, ty::tl_a> { using type = bool; };
template<> struct std::tuple_element<1, ty::tl_a> { using type = int; };
template<> struct std::tuple_element<2, ty::tl_a> { using type = double; };
namespace ty {
struct a_tlm : adapter<a_tlm, tl_m> { NAME("tuple-like (member get)"); static constexpr int N = 2; static T make(int i) { T t; t.a = i; t.b = i != 0; t.c = short(i * 3); return t; } };
struct a_tla : adapter<a_tla, tl_a> { NAME("tuple-like (ADL get)"); static constexpr int N = 2; static T make(int i) { return T{i != 0, i * 2, i * 1.5}; }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(i != 0, i * 2, i * 1.5); } };

// ---------------------------------------------------------------- user classes
struct agg { int a; float b; bool operator==(const agg& o) const { return a == o.a && b == o.b; } };
struct agg_b { int a; bool b; std::string s; bool operator==(const agg_b& o) const { return a == o.a && b == o.b && s == o.s; } };
struct padded { std::uint64_t x; std::uint32_t y; std::uint8_t PADDING{}; bool operator==(const padded& o) const { return x == o.x && y == o.y; } };
struct padded16 { std::uint32_t x; std::uint16_t PADDING{}; padded16(std::uint32_t v) : x(v) {} bool operator==(const padded16& o) const { return x == o.x; } };
struct padded_s { std::string s; std::uint32_t PADDING = 0; padded_s(std::string v) : s(std::move(v)) {} bool operator==(const padded_s& o) const { return s == o.s; } };
struct poly { int v; poly(int i) : v(i) {} virtual ~poly() = default; virtual int f() const { return v; } bool operator==(const poly& o) const { return f() == o.f(); } };
struct poly_d : poly { std::string s; poly_d(int i) : poly(i), s(std::size_t(i * 30), 'd') {} int f() const override { return v * 100 + int(s.size()); } };
struct other_base { int pad = 9; virtual void g() {} virtual ~other_base() = default; };
struct poly_mi : other_base, poly { poly_mi(int i) : poly(i) {} int f() const override { return v + pad; } };
struct poly_vi : virtual poly { int w; poly_vi(int i) : poly(i), w(i) {} int f() const override { return v + w; } };
struct poly_t { int v; poly_t(int i) : v(i) {} virtual int f() const { return v; } bool operator==(const poly_t& o) const { return f() == o.f(); } }; // trivially destructible
struct alignas(64) over { int v; over(int i) : v(i) {} bool operator==(const over& o) const { return v == o.v; } };
struct fin final { int v; explicit fin(int i) : v(i) {} bool operator==(const fin& o) const { return v == o.v; } };
struct amp { int v; amp(int i) : v(i) {} amp* operator&() = delete; const amp* operator&() const = delete; bool operator==(const amp& o) const { return v == o.v; } };
struct amp_t { bool b; amp_t(bool x) : b(x) {} void operator&() const; bool operator==(const amp_t& o) const { return b == o.b; } template<std::size_t> bool& get() { return b; } template<std::size_t> const bool& get() const { return b; } };
struct ilist { int n, last; ilist(std::initializer_list<int> l) : n(int(l.size())), last(l.size() ? *(l.end() - 1) : 0) {} ilist(int a, int b) : n(-a), last(-b) {} bool operator==(const ilist& o) const { return n == o.n && last == o.last; } };
struct greedy { int v; int kind = 0; greedy(int i) : v(i) {} template<class U, std::enable_if_t<!std::is_same_v<std::decay_t<U>, greedy> && !std::is_integral_v<std::decay_t<U>> && !opt::is_option_v<std::decay_t<U>>, int> = 0> greedy(U&&) : v(-1), kind(1) {} bool operator==(const greedy& o) const { return v == o.v && kind == o.kind; } };
struct mo { int v; mo(int i) : v(i) {} mo(mo&& o) noexcept : v(std::exchange(o.v, -9)) {} mo& operator=(mo&& o) noexcept { v = std::exchange(o.v, -9); return *this; } bool operator==(const mo& o) const { return v == o.v; } };
struct mo_n { int v; mo_n(int i) : v(i) {} mo_n(mo_n&& o) noexcept : v(o.v) { o.v = -9; } mo_n& operator=(mo_n&& o) noexcept { v = o.v; o.v = -9; return *this; } ~mo_n() {} bool operator==(const mo_n& o) const { return v == o.v; } };
struct nm { int v; nm(int i) : v(i) {} nm(const nm&) = delete; nm& operator=(const nm&) = delete; bool operator==(const nm& o) const { return v == o.v; } bool operator==(int o) const { return v == o; } };
struct nm_n { int v; std::string s; nm_n(int i) : v(i), s(std::size_t(i + 20), 'n') {} nm_n(nm_n&&) = delete; bool operator==(int o) const { return v == o; } };
struct na { const int v; na(int i) : v(i) {} bool operator==(const na& o) const { return v == o.v; } };
struct co { int v; co(int i) : v(i) {} co(const co& o) : v(o.v) {} co& operator=(const co& o) { v = o.v; return *this; } bool operator==(const co& o) const { return v == o.v; } };
struct tr_t { int v; constexpr tr_t(int i) : v(i) {} bool operator==(const tr_t& o) const { return v == o.v; } };      // trivial, custom traits
struct tr_n { int v; std::string s; tr_n(int i) : v(i), s(std::size_t(i * 20), 'x') {} bool operator==(const tr_n& o) const { return v == o.v && s == o.s; } }; // non-trivial, custom traits
struct tr_c { int v; tr_c(int i) : v(i) {} tr_c(const tr_c& o) : v(o.v) {} tr_c& operator=(const tr_c& o) { v = o.v; return *this; } bool operator==(const tr_c& o) const { return v == o.v; } }; // trivially destructible, non-trivial copy, custom traits
struct st1 { int v; bool operator==(const st1& o) const { return v == o.v; } };
struct mem_t { float x; int y; mem_t() : x(0), y(0) {} mem_t(float a, int b) : x(a), y(b) {} };
struct cmp5 { bool operator()(const int& a, int b) const noexcept { return a == b; } };
struct set5 { void operator()(int& a, int b) const noexcept { a = b; } };
}
template<> struct std::tuple_size<ty::amp_t> : std::integral_constant<std::size_t, 1> {};
template<> struct std::tuple_element<0, ty::amp_t> { using type = bool; };
template<> struct opt::option_traits<ty::tr_t> { static constexpr std::uintmax_t max_level = 4; static constexpr std::uintmax_t get_level(const ty::tr_t* p) noexcept { return p->v <= -100 && p->v > -104 ? std::uintmax_t(-100 - p->v) : std::uintmax_t(-1); } static constexpr void set_level(ty::tr_t* p, std::uintmax_t l) noexcept { p->v = -100 - int(l); } };
template<> struct opt::option_traits<ty::tr_n> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const ty::tr_n* p) noexcept { int v; std::memcpy(&v, p, sizeof v); return v == -77 ? 0u : v == -78 ? 1u : std::uintmax_t(-1); } static void set_level(ty::tr_n* p, std::uintmax_t l) noexcept { int v = -77 - int(l); std::memcpy(static_cast<void*>(p), &v, sizeof v); } };
template<> struct opt::option_traits<ty::tr_c> { static constexpr std::uintmax_t max_level = 1; static std::uintmax_t get_level(const ty::tr_c* p) noexcept { return p->v == -5 ? 0u : 1u; } static void set_level(ty::tr_c* p, std::uintmax_t) noexcept { p->v = -5; } };
template<> struct opt::option_traits<ty::nm_n> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const ty::nm_n* p) noexcept { return p->v < 0 ? std::uintmax_t(-1 - p->v) : std::uintmax_t(-1); } static void set_level(ty::nm_n* p, std::uintmax_t l) noexcept { p->v = -1 - int(l); } };
template<> struct opt::option_traits<ty::mo_n> { static constexpr std::uintmax_t max_level = 3; static std::uintmax_t get_level(const ty::mo_n* p) noexcept { return p->v <= -20 ? std::uintmax_t(-20 - p->v) : std::uintmax_t(-1); } static void set_level(ty::mo_n* p, std::uintmax_t l) noexcept { p->v = -20 - int(l); } };
template<> struct opt::sentinel_option_traits<ty::st1> { static constexpr ty::st1 sentinel_value{-1}; };
namespace ty {
template<class T> struct num_adapter : adapter<num_adapter<T>, T> { static constexpr int N = 3; static T make(int i) { return T(i); } static int index(const T& t) { for (int i = 0; i < 3; ++i) if (t == T(i)) return i; return -2; } template<class F> static decltype(auto) with(int i, F&& f) { return f(i); } };
#define NUM(an, Type, S) struct an : num_adapter<Type> { NAME(S); };
NUM(a_poly, poly, "polymorphic") NUM(a_polyd, poly_d, "polymorphic derived") NUM(a_polymi, poly_mi, "polymorphic multiple inheritance") NUM(a_polyvi, poly_vi, "polymorphic virtual base") NUM(a_polyt, poly_t, "polymorphic trivially destructible")
NUM(a_over, over, "over-aligned") NUM(a_fin, fin, "final explicit") NUM(a_amp, amp, "overloaded operator&") NUM(a_greedy, greedy, "greedy converting constructor")
NUM(a_mo, mo, "move-only") NUM(a_mon, mo_n, "move-only with traits") NUM(a_na, na, "const member") NUM(a_co, co, "copy-only")
NUM(a_trt, tr_t, "custom traits, trivial") NUM(a_trn, tr_n, "custom traits, non-trivial") NUM(a_trc, tr_c, "custom traits, trivially destructible non-trivial copy")
struct a_ampt : adapter<a_ampt, amp_t> { NAME("tuple-like with overloaded operator&"); static constexpr int N = 2; static T make(int i) { return T(i != 0); } template<class F> static decltype(auto) with(int i, F&& f) { return f(i != 0); } };
template<class T> struct nm_adapter : adapter<nm_adapter<T>, T> { static constexpr int N = 3; static T make(int i) { return T(i); } static int index(const T& t) { for (int i = 0; i < 3; ++i) if (t == i) return i; return -2; } template<class F> static decltype(auto) with(int i, F&& f) { return f(i); } };
struct a_nm : nm_adapter<nm> { NAME("non-movable"); };
struct a_nmn : nm_adapter<nm_n> { NAME("non-movable with traits"); };
struct a_agg : adapter<a_agg, agg> { NAME("aggregate{int,float}"); VALS(agg, 2, {0, 0.f}, {1, 2.f}) template<class F> static decltype(auto) with(int i, F&& f) { auto t = make(i); return f(t.a, t.b); } };
struct a_aggb : adapter<a_aggb, agg_b> { NAME("aggregate{int,bool,string}"); static constexpr int N = 2; static T make(int i) { return T{i, i != 0, std::string(std::size_t(i * 40), 'g')}; } };
struct a_pad : adapter<a_pad, padded> { NAME("PADDING:uint8"); static constexpr int N = 2; static T make(int i) { return T{std::uint64_t(i), std::uint32_t(i * 7)}; } template<class F> static decltype(auto) with(int i, F&& f) { return f(std::uint64_t(i), std::uint32_t(i * 7)); } };
struct a_pad16 : adapter<a_pad16, padded16> { NAME("PADDING:uint16"); static constexpr int N = 2; static T make(int i) { return T{std::uint32_t(i)}; } };
struct a_pads : adapter<a_pads, padded_s> { NAME("PADDING:uint32 + string"); static constexpr int N = 2; static T make(int i) { return T{std::string(std::size_t(i * 40), 'p')}; } };
struct a_ilist : adapter<a_ilist, ilist> { NAME("initializer_list constructor"); static constexpr int N = 2; static T make(int i) { return i ? T{4, 5, 6} : T{}; }
    template<class F> static decltype(auto) with(int i, F&& f) { if (i) return f(std::initializer_list<int>{4, 5, 6}); return f(std::initializer_list<int>{}); } };
struct a_st1 : adapter<a_st1, st1> { NAME("sentinel_option_traits"); VALS(st1, 2, {0}, {5}) };
using sent2 = opt::sentinel<int, -1, -2>;
struct a_sentw : adapter<a_sentw, sent2> { NAME("sentinel<int,-1,-2>"); static constexpr int N = 2; static T make(int i) { return T(i * 8); } static bool eq(const T& a, const T& b) { return a.m == b.m; } };
using sentf2 = opt::sentinel_f<int, cmp5, set5, -1, -2, -3>;
struct a_sentf : adapter<a_sentf, sentf2> { NAME("sentinel_f<int,...,-1,-2,-3>"); static constexpr int N = 2; static T make(int i) { return T(i * 8); } static bool eq(const T& a, const T& b) { return a.m == b.m; } };
using memw = opt::member<mem_t, &mem_t::x>;
struct a_memw : adapter<a_memw, memw> { NAME("member<T,&T::x>"); static constexpr int N = 2; static T make(int i) { return T(float(i), i * 2); } static bool eq(const T& a, const T& b) { return a.m.x == b.m.x && a.m.y == b.m.y; }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(float(i), i * 2); } };
struct a_enff : adapter<a_enff, opt::enforce<float>> { NAME("enforce<float>"); static constexpr int N = 2; static T make(int i) { return T(float(i) * 2.5f); } static bool eq(const T& a, const T& b) { return a.m == b.m; } };
struct a_enfp : adapter<a_enfp, opt::enforce<std::pair<int, bool>>> { NAME("enforce<pair<int,bool>>"); static constexpr int N = 2; static T make(int i) { return T(i, i != 0); } static bool eq(const T& a, const T& b) { return a.m == b.m; } };
struct a_enfs : adapter<a_enfs, opt::enforce<std::string>> { NAME("enforce<string>"); static constexpr int N = 2; static T make(int i) { return T(std::string(std::size_t(i * 40), 'e')); } static bool eq(const T& a, const T& b) { return a.m == b.m; } };

// ---------------------------------------------------------------- options of options and options inside aggregates
// value 0 = empty inner option, 1.. = inner values
template<class X> struct opt_adapter : adapter<opt_adapter<X>, opt::option<typename X::T>> { using T = opt::option<typename X::T>; static constexpr int N = X::N + 1; static constexpr bool move_keeps = std::is_trivially_copyable_v<T>;
    static T make(int i) { return i == 0 ? T{} : T{X::make(i - 1)}; }
    static int index(const T& o) { if (!o.has_value()) return 0; int k = X::index(*o); return k < 0 ? k : k + 1; }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); } };
struct a_oi : opt_adapter<a_int> { NAME("option<int>"); };
struct a_ob : opt_adapter<a_bool> { NAME("option<bool>"); };
struct a_od : opt_adapter<a_double> { NAME("option<double>"); };
struct a_os : opt_adapter<a_str> { NAME("option<string>"); };
struct a_ov : opt_adapter<a_vec> { NAME("option<vector<int>>"); };
struct a_oup : opt_adapter<a_uptr> { NAME("option<unique_ptr>"); };
struct a_osent : opt_adapter<a_sent> { NAME("option<enum SENTINEL>"); };
struct a_opoly : opt_adapter<a_polyd> { NAME("option<polymorphic>"); };
struct a_oob : opt_adapter<a_ob> { NAME("option<option<bool>>"); };
struct a_ooi : opt_adapter<a_oi> { NAME("option<option<int>>"); };
struct a_opb : opt_adapter<a_pib> { NAME("option<pair<int,bool>>"); };
struct a_orefw : opt_adapter<a_refw> { NAME("option<reference_wrapper>"); };
struct a_osv : opt_adapter<a_sv> { NAME("option<string_view>"); };
struct a_otrn : opt_adapter<a_trn> { NAME("option<custom traits non-trivial>"); };
struct a_omp : opt_adapter<a_mfptr> { NAME("option<member function pointer>"); };
struct a_poi : adapter<a_poi, std::pair<opt::option<int>, int>> { NAME("pair<option<int>,int>"); static constexpr int N = 3; static T make(int i) { return i == 0 ? T{opt::none, 0} : i == 1 ? T{4, 0} : T{opt::none, 7}; } };
struct a_tob : adapter<a_tob, std::tuple<opt::option<bool>, std::string>> { NAME("tuple<option<bool>,string>"); static constexpr int N = 2; static T make(int i) { return i ? T{true, std::string(40, 'k')} : T{opt::none, ""}; } };
struct a_aoi : adapter<a_aoi, std::array<opt::option<int>, 2>> { NAME("array<option<int>,2>"); static constexpr int N = 2; static T make(int i) { return i ? T{{opt::option<int>{1}, opt::none}} : T{}; } };
inline int reft[2] = {10, 20};
struct a_oref : adapter<a_oref, opt::option<int&>> { NAME("option<int&>"); static constexpr int N = 3; static T make(int i) { return i == 0 ? T{} : T{reft[i - 1]}; } static int index(const T& o) { return !o.has_value() ? 0 : &*o == &reft[0] ? 1 : &*o == &reft[1] ? 2 : -2; } };
struct a_vo : adapter<a_vo, std::vector<opt::option<int>>> { NAME("vector<option<int>>"); static constexpr int N = 2; static T make(int i) { return i ? T{opt::none, opt::option<int>{2}} : T{}; } };
struct a_cint : adapter<a_cint, const int> { NAME("const int"); static constexpr int N = 2; static int make(int i) { return i * 3; } static constexpr bool move_keeps = true; };
struct a_cstr2 : adapter<a_cstr2, const std::string> { NAME("const string"); static constexpr int N = 2; static std::string make(int i) { return std::string(std::size_t(i * 40), 'c'); } };
struct a_cbool : adapter<a_cbool, const bool> { NAME("const bool"); static constexpr int N = 2; static bool make(int i) { return i != 0; } };

template<class... As> struct list {};
using scalars = list<a_int, a_bool, a_uchar, a_llong, a_float, a_double, a_ldouble, a_ptr, a_cstr, a_vptr, a_fptr, a_pptr>;
using enums = list<a_sent, a_sent8, a_start, a_start_i, a_range, a_range1, a_refl8, a_refl, a_flags, a_full, a_esigned, a_u64>;
using views = list<a_mptr, a_mfptr, a_vmfptr, a_refw, a_sv, a_sv16, a_cint, a_cstr2, a_cbool>;
using library = list<a_str, a_wstr, a_sstr, a_vec, a_vecb, a_vecs, a_uptr, a_uptrd>;
using library2 = list<a_sptr, a_cplxf, a_cplxd, a_sopt, a_var, a_map, a_func>;
using composites = list<a_pib, a_pbi, a_pii, a_psi, a_pbs, a_pdf, a_t1, a_t1i, a_t3>;
using composites2 = list<a_tbds, a_ab, a_ai, a_as, a_pui, a_tpc, a_tlm, a_tla>;
using classes = list<a_poly, a_polyd, a_polymi, a_polyvi, a_polyt, a_over, a_fin, a_amp, a_ampt, a_greedy>;
using classes2 = list<a_mo, a_mon, a_na, a_co, a_trt, a_trn, a_trc, a_nm, a_nmn, a_agg>;
using classes3 = list<a_aggb, a_pad, a_pad16, a_pads, a_ilist, a_st1, a_sentw, a_sentf, a_memw, a_enff, a_enfp, a_enfs>;
using nested = list<a_oi, a_ob, a_od, a_os, a_ov, a_oup, a_osent, a_opoly>;
using nested2 = list<a_oob, a_ooi, a_opb, a_orefw, a_osv, a_otrn, a_omp>;
using nested3 = list<a_poi, a_tob, a_aoi, a_oref, a_vo>;
}
