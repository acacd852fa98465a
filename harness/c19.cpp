// C19 (a): user traits whose state lives outside of the payload: the protocol of get_level/set_level is checked on every call,
// over all operation sequences, for every number of levels, every "not empty" return value and every nesting depth.
#include "seq.hpp"
#include <array>
#include <tuple>

namespace rec {
using C = trk::core<false>;
// address -> level, for storage in which no object lives
struct entry { const void* p; std::uintmax_t level; };
inline entry table[64];
inline int n = 0;
inline int find(const void* p) { for (int i = 0; i < n; ++i) if (table[i].p == p) return i; return -1; }
inline void forget(const void* p) { const int i = rec::find(p); if (i >= 0) table[i] = table[--n]; }
inline unsigned long long calls_get = 0, calls_set = 0;
inline const char* lo[2]; inline std::size_t len = 0; // storage of the two options
inline bool in_options(const void* p) { for (const char* l : lo) if (l && static_cast<const char*>(p) >= l && static_cast<const char*>(p) < l + len) return true; return false; }

template<int L, int OVER, bool TRIVIAL_DTOR = false> struct payload : C { using C::C;
    payload(int i) : C(i) { forget(this); } payload(const payload& o) : C(o) { forget(this); } payload(payload&& o) : C(std::move(o)) { forget(this); }
    payload& operator=(const payload&) = default; payload& operator=(payload&&) = default; };
template<int L, int OVER> struct traits {
    using T = payload<L, OVER>;
    static constexpr std::uintmax_t max_level = L;
    static std::uintmax_t get_level(const T* p) noexcept {
        ++calls_get;
        if (p == nullptr) { mc::fail("get_level called with a null pointer", ""); return 0; }
        if (trk::is_live(p)) return OVER < 0 ? std::uintmax_t(-1) : std::uintmax_t(L + OVER);
        const int i = rec::find(p);
        if (i < 0) { mc::fail("get_level called on storage with neither a value nor a level", ""); return 0; }
        return table[i].level;
    }
    static void set_level(T* p, std::uintmax_t l) noexcept {
        ++calls_set;
        if (p == nullptr) { mc::fail("set_level called with a null pointer", ""); return; }
        if (l >= L) mc::fail("set_level called with a level that is not below max_level", "");
        if (trk::is_live(p)) { mc::fail("set_level called over a live value", ""); return; }
        const int i = rec::find(p);
        if (i >= 0) table[i].level = l;
        else if (n < 64) table[n++] = {p, l};
    }
};
}
template<int L, int OVER> struct opt::option_traits<rec::payload<L, OVER>> : rec::traits<L, OVER> {};

namespace rec {
template<class T, int D> struct nest { using type = opt::option<typename nest<T, D - 1>::type>; };
template<class T> struct nest<T, 0> { using type = T; };
template<class T> constexpr int depth_of = 0;
template<class T> constexpr int depth_of<opt::option<T>> = depth_of<T> + 1;
// values of option^D<P>: number i < D is "empty after i layers", D is the innermost value 5
template<class T> T make(int i) { if constexpr (opt::is_option_v<T>) { if (i == 0) return T(); return T(std::in_place, make<typename T::value_type>(i - 1)); } else return T(5); }
template<class T> int index(const T& t) { if constexpr (opt::is_option_v<T>) { if (!t.has_value()) return 0; const int x = index(*t); return x < 0 ? x : x + 1; } else { trk::used(&t, "value read from a dead object"); return t.v == 5 ? 0 : -2; } }
template<class T> int live(const T& t) { if constexpr (opt::is_option_v<T>) return t.has_value() ? live(*t) : 0; else return 1; }
template<int L, int OVER, int D> struct a : seq::adapter<a<L, OVER, D>, typename nest<payload<L, OVER>, D>::type> {
    using T = typename nest<payload<L, OVER>, D>::type;
    static constexpr int N = D + 1;
    static constexpr bool move_keeps = false;
    static inline char name[64];
    static void enter() { n = 0; lo[0] = lo[1] = nullptr; }
    static T make(int i) { return rec::make<T>(i); }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(make(i)); }
    static int index(const T& t) { return rec::index(t); }
    template<class W> static void invariant(W& w) {
        lo[0] = reinterpret_cast<const char*>(w.ca.bytes); lo[1] = reinterpret_cast<const char*>(w.cb.bytes); len = sizeof w.ca.bytes;
        const int ea = w.a().has_value() ? live(*w.a()) : 0, eb = w.b().has_value() ? live(*w.b()) : 0;
        MC_CHECK(trk::count_in(w.ca.bytes, len) == ea && trk::count_in(w.cb.bytes, len) == eb, "an option is empty although a value is alive in it, or the reverse");
        MC_CHECK(trk::n_live == w.objects + ea + eb, "objects alive outside of the options");
    }
};
template<int L, int OVER, int D> void one(int full, int core) {
    std::snprintf(a<L, OVER, D>::name, sizeof a<L, OVER, D>::name, "%d level(s), value reported as %s%d, nested %d times", L, OVER < 0 ? "" : "max+", OVER, D);
    seq::explorer<a<L, OVER, D>> e;
    e.explore(full, core);
    // the levels are used up from the innermost type outwards, then a flag is added
    mc::clear();
    if (D < L) MC_CHECK(sizeof(typename seq::world<a<L, OVER, D>>::O) == sizeof(payload<L, OVER>), "option is larger than its payload although there are levels left");
}
}
namespace rec {
// composites and wrappers, which clone the traits of one component
template<class Self, class T_, int PER> struct c : seq::adapter<Self, T_> {
    using T = T_; static constexpr int N = 2; static constexpr bool move_keeps = false;
    static void enter() { n = 0; }
    template<class F> static decltype(auto) with(int i, F&& f) { return f(Self::make(i)); }
    static int index(const T& t) { const int v = Self::num(t); return v == 5 || v == 6 ? v - 5 : -2; }
    template<class W> static void invariant(W& w) {
        const int ea = w.a().has_value() ? PER : 0, eb = w.b().has_value() ? PER : 0;
        MC_CHECK(trk::count_in(w.ca.bytes, sizeof w.ca.bytes) == ea && trk::count_in(w.cb.bytes, sizeof w.cb.bytes) == eb, "an option is empty although a value is alive in it, or the reverse");
    }
};
using P1 = payload<1, 0>; using P3 = payload<3, -1>; using P3b = payload<3, 0>;
struct holder { int k; P3 p; char z; holder(int i) : k(i), p(i), z('z') {} };
struct c_pair : c<c_pair, std::pair<int, P3>, 1> { static constexpr const char* name = "pair<int,P3>"; static T make(int i) { return T(1, i + 5); } static int num(const T& t) { return t.second.v; } };
struct c_pair2 : c<c_pair2, std::pair<P3, P1>, 2> { static constexpr const char* name = "pair<P3,P1>"; static T make(int i) { return T(i + 5, i + 5); } static int num(const T& t) { return t.first.v == t.second.v ? t.first.v : -1; } };
struct c_tup : c<c_tup, std::tuple<P1, char, P3b, P1>, 3> { static constexpr const char* name = "tuple<P1,char,P3,P1>"; static T make(int i) { return T(i + 5, 'a', i + 5, i + 5); } static int num(const T& t) { return std::get<0>(t).v == std::get<2>(t).v && std::get<3>(t).v == std::get<2>(t).v ? std::get<2>(t).v : -1; } };
struct c_arr : c<c_arr, std::array<P3b, 3>, 3> { static constexpr const char* name = "array<P3,3>"; static T make(int i) { return T{{P3b(i + 5), P3b(i + 5), P3b(i + 5)}}; } static int num(const T& t) { return t[0].v == t[2].v && t[1].v == t[2].v ? t[0].v : -1; } };
struct c_mem : c<c_mem, opt::member<holder, &holder::p>, 1> { static constexpr const char* name = "member<holder,P3>"; static T make(int i) { return T(i + 5); } static int num(const T& t) { return t.m.k == t.m.p.v || t.m.p.v == 9 ? t.m.p.v : -1; } static bool eq(const T& a, const T& b) { return num(a) == num(b); } };
struct c_enf : c<c_enf, opt::enforce<P1>, 1> { static constexpr const char* name = "enforce<P1>"; static T make(int i) { return T(i + 5); } static int num(const T& t) { return t.m.v; } };
struct c_oen : c<c_oen, opt::option<opt::enforce<P3>>, 1> { static constexpr const char* name = "option<enforce<P3>>"; static T make(int i) { return T(std::in_place, i + 5); } static int num(const T& t) { return t.has_value() ? t->m.v : -1; } };
}
int main() {
    mc::init();
    const int full = std::atoi(std::getenv("MC_FULL")), core = std::atoi(std::getenv("MC_CORE"));
    using namespace rec;
#if PART == 0
    one<1, 0, 0>(full, core); one<1, -1, 0>(full, core); one<1, 3, 1>(full, core);
#elif PART == 1
    one<1, 0, 1>(full, core); one<1, -1, 2>(full, core); one<2, 0, 0>(full, core);
#elif PART == 2
    one<2, 0, 1>(full, core); one<2, 0, 2>(full, core); one<2, -1, 2>(full, core);
#elif PART == 3
    one<3, 0, 2>(full, core); one<3, -1, 3>(full, core);
#elif PART == 4
    one<300, 0, 1>(full, core); one<300, -1, 3>(full, core);
#elif PART == 5
    one<2, 0, 3>(full, core); one<1, 2, 3>(full, core);
#elif PART == 6
    seq::explore_all<c_pair, c_pair2, c_tup>(full, core);
#elif PART == 7
    seq::explore_all<c_arr, c_mem, c_enf, c_oen>(full, core);
#endif
    mc::sample("get_level was called " + std::to_string(calls_get) + " times and set_level " + std::to_string(calls_set) + " times, each within the protocol");
    return mc::finish();
}
