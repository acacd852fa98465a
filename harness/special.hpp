// Every combination of declared special members: P<CC, MC, CA, MA, DT, TR>.
//   CC, CA: 0 deleted, 1 defaulted, 2 user-provided noexcept, 3 user-provided, may throw
//   MC, MA: 0 deleted, 1 defaulted, 2 user-provided noexcept, 3 user-provided, may throw, 4 not declared (moves copy)
//   DT: 1 trivial, 2 user-provided;  TR: 0 no traits, 1 traits with three levels
#pragma once
#include "fn.hpp"
namespace sp {
struct log_t { int cc = 0, mc = 0, ca = 0, ma = 0, dt = 0; };
inline log_t lg;
constexpr int GONE = 77;
template<int CC, int MC, int CA, int MA, int DT, int TR> struct P;
#define SP_CC_0(X) X(const X&) = delete;
#define SP_CC_1(X) X(const X&) = default;
#define SP_CC_2(X) X(const X& o) noexcept : v(o.v) { ++::sp::lg.cc; }
#define SP_CC_3(X) X(const X& o) noexcept(false) : v(o.v) { ++::sp::lg.cc; }
#define SP_MC_0(X) X(X&&) = delete;
#define SP_MC_1(X) X(X&&) = default;
#define SP_MC_2(X) X(X&& o) noexcept : v(o.v) { o.v = GONE; ++::sp::lg.mc; }
#define SP_MC_3(X) X(X&& o) noexcept(false) : v(o.v) { o.v = GONE; ++::sp::lg.mc; }
#define SP_MC_4(X)
#define SP_CA_0(X) X& operator=(const X&) = delete;
#define SP_CA_1(X) X& operator=(const X&) = default;
#define SP_CA_2(X) X& operator=(const X& o) noexcept { v = o.v; ++::sp::lg.ca; return *this; }
#define SP_CA_3(X) X& operator=(const X& o) noexcept(false) { v = o.v; ++::sp::lg.ca; return *this; }
#define SP_MA_0(X) X& operator=(X&&) = delete;
#define SP_MA_1(X) X& operator=(X&&) = default;
#define SP_MA_2(X) X& operator=(X&& o) noexcept { v = o.v; if (this != &o) o.v = GONE; ++::sp::lg.ma; return *this; }
#define SP_MA_3(X) X& operator=(X&& o) noexcept(false) { v = o.v; if (this != &o) o.v = GONE; ++::sp::lg.ma; return *this; }
#define SP_MA_4(X)
#define SP_DT_1(X)
#define SP_DT_2(X) ~X() { ++::sp::lg.dt; }
#define SP_TYPE(CC, MC, CA, MA, DT, TR) template<> struct P<CC, MC, CA, MA, DT, TR> { int v; explicit P(int x) noexcept : v(x) {} SP_CC_##CC(P) SP_MC_##MC(P) SP_CA_##CA(P) SP_MA_##MA(P) SP_DT_##DT(P) };
#define SP_TR(CC, MC, CA, MA, DT) SP_TYPE(CC, MC, CA, MA, DT, 0) SP_TYPE(CC, MC, CA, MA, DT, 1)
#define SP_DT(CC, MC, CA, MA) SP_TR(CC, MC, CA, MA, 1) SP_TR(CC, MC, CA, MA, 2)
#define SP_MA(CC, MC, CA) SP_DT(CC, MC, CA, 0) SP_DT(CC, MC, CA, 1) SP_DT(CC, MC, CA, 2) SP_DT(CC, MC, CA, 3) SP_DT(CC, MC, CA, 4)
#define SP_CA(CC, MC) SP_MA(CC, MC, 0) SP_MA(CC, MC, 1) SP_MA(CC, MC, 2) SP_MA(CC, MC, 3)
#define SP_MC(CC) SP_CA(CC, 0) SP_CA(CC, 1) SP_CA(CC, 2) SP_CA(CC, 3) SP_CA(CC, 4)
SP_MC(0) SP_MC(1) SP_MC(2) SP_MC(3)
template<int CC, int MC, int CA, int MA, int DT, int TR> bool operator==(const P<CC, MC, CA, MA, DT, TR>& a, const P<CC, MC, CA, MA, DT, TR>& b) { return a.v == b.v; }
template<int CC, int MC, int CA, int MA, int DT, int TR> struct tr {
    using X = P<CC, MC, CA, MA, DT, TR>;
    static constexpr std::uintmax_t max_level = 3;
    static std::uintmax_t get_level(const X* p) noexcept { return p->v <= -100 && p->v > -103 ? std::uintmax_t(-100 - p->v) : std::uintmax_t(-1); }
    static void set_level(X* p, std::uintmax_t l) noexcept { p->v = -100 - int(l); }
};
template<int CC, int MC, int CA, int MA, int DT, int TR> const char* name() {
    static char b[80]; static const char* k[] = {"deleted", "default", "user", "throwing", "none"};
    std::snprintf(b, sizeof b, "cc=%s mc=%s ca=%s ma=%s dtor=%s %s", k[CC], k[MC], k[CA], k[MA], DT == 1 ? "trivial" : "user", TR ? "traits" : "flag");
    return b;
}
// Encoded list: code -> parameters (MA fastest)
template<int CODE> struct dec { static constexpr int TR = CODE % 2, DT = 1 + CODE / 2 % 2, MA = CODE / 4 % 5, CA = CODE / 20 % 4, MC = CODE / 80 % 5, CC = CODE / 400; };
constexpr int COUNT = 1600;
}
template<int CC, int MC, int CA, int MA, int DT> struct opt::option_traits<sp::P<CC, MC, CA, MA, DT, 1>> : sp::tr<CC, MC, CA, MA, DT, 1> {};
