// C05: every nesting depth of emptiness is distinguishable: all states x all layers x all target states x all mutations.
// PART 0..2: ordinary depths; 3: depths that exhaust the unused patterns of the innermost type.
#include "fn.hpp"
#include <complex>
#include <limits>
using namespace fn;
enum class R3 : unsigned char { a, b, SENTINEL_START = 10, SENTINEL_END = 12 };
enum class R8 : signed char { a = 50, b = 100, SENTINEL_START = -4, SENTINEL_END = 3 };
struct PD { short x; std::uint8_t PADDING = 0; unsigned char y = 0; bool operator==(const PD& o) const { return x == o.x; } bool operator!=(const PD& o) const { return x != o.x; } };
enum class PE : unsigned char { a, b, c = 100 };
FN_KIND(k_r3, R3, "enum with 3 sentinels", 2, return i ? R3::b : R3::a;);
FN_KIND(k_r8, R8, "enum with 8 sentinels", 2, return i ? R8::b : R8::a;);
FN_KIND(k_pe, PE, "plain enum", 3, return i == 0 ? PE::a : i == 1 ? PE::b : PE::c;);
FN_KIND(k_pd, PD, "PADDING class", 2, return PD{short(i * 300)};);
FN_KIND(k_flt, float, "float", 2, return i * 2.5f;);
FN_KIND(k_mp, int AG::*, "member pointer", 2, return i ? &AG::a : nullptr;);
FN_KIND(k_sh, std::shared_ptr<int>, "shared_ptr", 1, return nullptr;);
struct k_ref { using T = int&; static constexpr const char* name = "int&"; static constexpr int N = 3; static constexpr bool copyable = true; static T make(int i) { return pool[i]; } };
struct k_rw { using T = std::reference_wrapper<int>; static constexpr const char* name = "reference_wrapper"; static constexpr int N = 3; static constexpr bool copyable = true; static T make(int i) { return std::ref(pool[i]); } };

template<class K, int D> struct ch { using type = opt::option<typename ch<K, D - 1>::type>; };
template<class K> struct ch<K, 0> { using type = typename K::T; };
template<class K, int D> using chain = typename ch<K, D>::type;
// state s of depth D: s < D: s layers engaged, then empty; s >= D: value s - D
template<class K, int D> chain<K, D> make(int s) {
    if constexpr (D == 0) return K::make(s);
    else { if (s == 0) return chain<K, D>(); return chain<K, D>(std::in_place, make<K, D - 1>(s - 1)); }
}
template<class K> int index_of(const std::remove_reference_t<typename K::T>& v) {
    for (int i = 0; i < K::N; ++i) {
        if constexpr (same<K, k_ref>) { if (&v == &pool[i]) return i; }
        else if constexpr (same<K, k_rw>) { if (&v.get() == &pool[i]) return i; }
        else if (is_value<K>(v, i)) return i;
    }
    return 1000;
}
template<class K, int D> int read(const chain<K, D>& o) {
    const bool h = o.has_value();
    if (h != bool(o) || h != (o != opt::none) || h == (opt::none == o) || h != (o.ptr_or_null() != nullptr)) return -5;
    if (!h) return 0;
    if constexpr (D == 1) return 1 + index_of<K>(*o); else return 1 + read<K, D - 1>(*o);
}
template<class K, int D, class F> void descend(chain<K, D>& o, int j, F&& f) { // f(layer, depth of the layer)
    if (j == 0) f(o, std::integral_constant<int, D>{});
    else if constexpr (D > 1) descend<K, D - 1>(*o, j - 1, f);
}
constexpr const char* mut_names[] = {"copy-assign", "move-assign", "reset/emplace", "assign none/inner", "swap", "assign O{}/inner rvalue", "take", "emplace()", "self-assign", "rebuild"};
template<class K, int L> bool mutate(chain<K, L>& o, int m, int old, int t) { // false: does not apply
    using O = chain<K, L>;
    switch (m) {
        case 0: if constexpr (K::copyable) { const O x = make<K, L>(t); o = x; MC_CHECK((read<K, L>(x) == t), "source of a copy assignment changed"); return true; } return false;
        case 1: { O x = make<K, L>(t); o = std::move(x); return true; }
        case 2: if (t == 0) o.reset(); else o.emplace(make<K, L - 1>(t - 1)); return true;
        case 3: if (t == 0) o = opt::none; else { if constexpr (K::copyable) { if constexpr (L > 1) { const chain<K, L - 1> x = make<K, L - 1>(t - 1); o = x; } else o = K::make(t - 1); } else return false; } return true;
        case 4: { O x = make<K, L>(t); o.swap(x); MC_CHECK((read<K, L>(x) == old), "swap handed over the old state"); return true; }
        case 5: if (t == 0) o = O{}; else o = make<K, L - 1>(t - 1); return true;
        case 6: { if (t != 0) return false; O x = o.take(); MC_CHECK((read<K, L>(x) == old), "take returned the old state"); return true; }
        case 7: if constexpr (L > 1) { if (t != 1) return false; o.emplace(); return true; } else return false;
        case 8: if (t != old) return false; if constexpr (K::copyable) { O& alias = o; o = alias; return true; } else return false;
        default: { O x = make<K, L>(t); o.~O(); ::new (static_cast<void*>(&o)) O(std::move(x)); return true; }
    }
}
template<class K, int D> void all_copies(chain<K, D>& o, int s) {
    using O = chain<K, D>;
    if constexpr (K::copyable) { O c(o); MC_CHECK((read<K, D>(c) == s), "copy has the same state"); MC_CHECK((read<K, D>(o) == s), "copying changed the source"); O m(std::move(c)); MC_CHECK((read<K, D>(m) == s), "move has the same state"); }
}
template<class K, int D> void explore() {
    using O = chain<K, D>;
    mc::set_ctx(K::name, ("depth " + std::to_string(D)).c_str());
    const int S = D + K::N;
    for (int s = 0; s < S; ++s) {
        ++mc::stats.states; mc::clear(); mc::push("state", s);
        O o = make<K, D>(s);
        MC_CHECK((read<K, D>(o) == s), "state reported after construction"); all_copies<K, D>(o, s);
        if constexpr (K::copyable && !same<K, k_ref> && !same<K, k_rw>) for (int t = 0; t < S; ++t) { const O p = make<K, D>(t); MC_CHECK((o == p) == (s == t), "states compare equal only to themselves"); MC_CHECK((o != p) == (s != t), "states compare equal only to themselves"); ++mc::stats.transitions; }
        if constexpr (K::copyable) for (int t = 0; t < S; ++t) { O p = make<K, D>(t); p = o; MC_CHECK((read<K, D>(p) == s), "whole-state copy assignment"); O q = make<K, D>(t); q = O(o); MC_CHECK((read<K, D>(q) == s), "whole-state move assignment"); mc::stats.transitions += 2; }
        for (int j = 0; j <= (s < D ? s : D - 1); ++j) for (int t = 0; t < S - j; ++t) for (int m = 0; m < 10; ++m) {
            O x = make<K, D>(s);
            mc::push("layer", j); mc::push(mut_names[m], t);
            bool did = false;
            descend<K, D>(x, j, [&](auto& layer, auto L) { did = mutate<K, L.value>(layer, m, s - j, t); });
            if (did) {
                ++mc::stats.transitions; ++mc::stats.traces;
                MC_CHECK((read<K, D>(x) == j + t), "state after changing one layer"); all_copies<K, D>(x, j + t);
                if (mc::stats.traces % 4001 == 7) mc::sample_trace();
            }
            mc::pop(); mc::pop();
        }
    }
}
// Very deep chains: whole-state operations for every pair of states, one mutation per layer.
template<class K, int D> void explore_deep() {
    using O = chain<K, D>;
    mc::set_ctx(K::name, ("depth " + std::to_string(D)).c_str());
    const int S = D + K::N;
    for (int s = 0; s < S; ++s) {
        ++mc::stats.states; mc::clear(); mc::push("state", s);
        O o = make<K, D>(s); MC_CHECK((read<K, D>(o) == s), "state reported after construction");
        all_copies<K, D>(o, s);
        for (int t = 0; t < S; ++t) { O p = make<K, D>(t); p = o; MC_CHECK((read<K, D>(p) == s), "whole-state copy assignment"); ++mc::stats.transitions; ++mc::stats.traces; }
        for (int j = 0; j <= (s < D ? s : D - 1); ++j) for (int m = 0; m < 2; ++m) {
            O x = o; mc::push("layer", j); int want = j;
            descend<K, D>(x, j, [&](auto& layer, auto L) { if (m == 0) layer.reset(); else if constexpr (L.value > 1) { layer.emplace(); want = j + 1; } else { layer.emplace(K::make(0)); want = D; } });
            ++mc::stats.transitions; ++mc::stats.traces;
            MC_CHECK((read<K, D>(x) == want), "state after changing one layer"); mc::pop();
        }
    }
}
// Every level of the traits of a type: whatever the storage held before, level l written is level l read, and a
// value reads as no level (these are the levels that nested options of any depth use).
template<class T, class... V> void levels(const char* nm, V... make) {
    using Tr = opt::option_traits<T>;
    mc::set_ctx(nm, "all levels");
    struct alignas(T) raw { unsigned char b[sizeof(T)]; } st;
    static_assert(Tr::max_level >= 1, "");
    for (std::uintmax_t l = 0; l < Tr::max_level && l < 70000; ++l) for (int g : {0x00, 0xFF, 0xA5, 0x01}) {
        std::memset(st.b, g, sizeof st.b); T* p = reinterpret_cast<T*>(st.b); ++mc::stats.states; ++mc::stats.traces; mc::stats.transitions += 2;
        Tr::set_level(p, l); mc::clear(); mc::push("level", (long long)l);
        MC_CHECK(Tr::get_level(p) == l, "level written is not the level read");
        raw copy = st; MC_CHECK(Tr::get_level(reinterpret_cast<T*>(copy.b)) == l, "level survives a bitwise copy");
    }
    mc::clear();
    (([&] { T v = make(); mc::push("value"); MC_CHECK(Tr::get_level(&v) >= Tr::max_level, "a value reads as a level"); mc::clear(); ++mc::stats.states; }()), ...);
    mc::sample(std::string(nm) + ": levels 0.." + std::to_string(Tr::max_level - 1));
}
template<class K> void levels_of() { levels<typename K::T>(K::name, [] { return K::make(0); }, [] { return K::make(1); }); }
struct P16 { int x; std::uint16_t PADDING = 0; }; enum class F16 : unsigned short { a, b, SENTINEL_START = 100, SENTINEL_END = 60000 }; enum class N8 : signed char { a = 100, SENTINEL_START = -128, SENTINEL_END = 99 }; enum class S32 : int { a = -5, SENTINEL_START = 2000000000 };
struct VD : virtual PO { VD() : PO(3) {} };
template<int D, class K> void upto() { if constexpr (D > 1) upto<D - 1, K>(); explore<K, D>(); }
int main() {
    mc::init();
#if PART == 0
    upto<4, k_bool>(); upto<4, k_int>(); upto<4, k_dbl>(); upto<4, k_ptr>(); upto<4, k_flt>(); upto<4, k_enum>(); upto<4, k_ref>();
#elif PART == 1
    upto<4, k_str>(); upto<4, k_vec>(); upto<4, k_sv>(); upto<4, k_up>(); upto<4, k_po>(); upto<4, k_pe>(); upto<4, k_rw>(); upto<4, k_mp>();
#elif PART == 2
    upto<3, k_pair>(); upto<3, k_tup>(); upto<3, k_arr>(); upto<4, k_agg>(); upto<4, k_l0>(); upto<4, k_l1>(); upto<3, k_mo>(); upto<3, k_sh>(); upto<3, k_opt>(); upto<4, k_pd>();
#elif PART == 3
    explore<k_enum, 6>(); explore<k_r3, 3>(); explore<k_r3, 4>(); explore<k_r3, 5>(); explore<k_r3, 7>(); explore<k_l1, 5>(); explore<k_l1, 7>(); explore<k_pe, 6>(); 
    levels_of<k_bool>(); levels_of<k_dbl>(); levels_of<k_flt>(); levels_of<k_ptr>(); levels_of<k_enum>(); levels_of<k_str>(); levels_of<k_vec>(); levels_of<k_sv>(); levels_of<k_up>(); levels_of<k_po>(); levels_of<k_pe>(); levels_of<k_mp>(); levels_of<k_pd>(); levels_of<k_r3>(); levels_of<k_r8>(); levels_of<k_pair>(); levels_of<k_tup>(); levels_of<k_arr>(); levels_of<k_opt>(); levels_of<k_opti>(); levels_of<k_rw>(); levels_of<k_l1>();
    levels<P16>("16-bit PADDING", [] { return P16{5}; }); levels<F16>("16-bit range", [] { return F16::b; }, [] { return F16(99); }, [] { return F16(60001); }, [] { return F16(65535); }); levels<N8>("8-bit range, 228 levels", [] { return N8::a; }, [] { return N8(127); }); levels<S32>("32-bit open range", [] { return S32::a; }, [] { return S32(1999999999); }, [] { return S32(std::numeric_limits<int>::min()); });
    levels<VD>("virtual base", [] { return VD(); }); levels<std::complex<double>>("complex", [] { return std::complex<double>(1, 2); }); levels<std::complex<float>>("complex<float>", [] { return std::complex<float>(); }); levels<int (AG::*)()>("member function pointer", [] { return static_cast<int (AG::*)()>(nullptr); }); levels<std::wstring>("wstring", [] { return std::wstring(); }, [] { return std::wstring(300, L'x'); }); levels<std::unique_ptr<PO>>("unique_ptr<PO>", [] { return std::make_unique<PO>(1); });
    levels<opt::option<opt::option<bool>>>("option<option<bool>>", [] { return opt::option<opt::option<bool>>(); }, [] { return opt::option<opt::option<bool>>(opt::option<bool>()); }, [] { return opt::option<opt::option<bool>>(opt::option<bool>(true)); }); levels<opt::option<int&>>("option<int&>", [] { return opt::option<int&>(); }, [] { return opt::option<int&>(pool[0]); }); levels<opt::option<std::string>>("option<string>", [] { return opt::option<std::string>(); }, [] { return opt::option<std::string>("x"); });
    explore<k_r8, 8>(); explore<k_r8, 9>(); explore<k_r8, 11>(); explore<k_int, 8>(); explore<k_ref, 8>(); explore<k_bool, 12>();
#elif PART == 4
    explore_deep<k_bool, DEPTH>();
#elif PART == 5
    explore_deep<k_int, DEPTH>(); 
#elif PART == 6
    explore_deep<k_pe, DEPTH>();
#elif PART == 7
    explore_deep<k_ref, DEPTH>();
#elif PART == 8
    explore_deep<k_ptr, DEPTH>();
#elif PART == 9
    explore_deep<k_str, DEPTH>();
#endif
    return mc::finish();
}
