// C21: the whole interface, used or not, in one configuration: every member of the class templates is instantiated, the header stands
// alone, and a program of two translation units, one of which sees the forward header first, links and agrees with itself.
// TU 1 (this one has main); c21i2.cpp is this file again as TU 2.
#ifndef TU
    #define TU 1
#endif
#if TU == 2
    #include <opt/option_fwd.hpp>
    struct early;                                        // known only by name here
    opt::option<int> link_make(int);
    template<class T> struct holder { opt::option<T>* p; static constexpr bool o = opt::is_option_v<opt::option<T>>; };
    static_assert(holder<early>::o && !opt::is_option_v<int>, "");
    static_assert(opt::is_option<opt::option<early>>::value && !opt::is_option<early>::value, "");
    #include <opt/option_fwd.hpp>
    #include <opt/option.hpp>
    #include <opt/option_fwd.hpp>
#else
    #include <opt/option.hpp>                            // first: it needs nothing before it
    namespace { [[maybe_unused]] opt::option<int> alone() { opt::option<int> a{1}; a = opt::none; a.emplace(2); opt::option<const char*> c{"x"}; opt::option<double> d; opt::option<bool&> r; (void)c; (void)d; (void)r; return a.map([](int x) { return x + 1; }); } }
    #include <opt/option.hpp>
#endif
#include <string>
#include <vector>
#include <memory>
#include <array>
#include <complex>
#include <functional>
#include <map>
#include <tuple>
#include <utility>
#include <string_view>
#include <optional>
#include <variant>
#include <unordered_map>

// the same types in both units: what they are told about each other must agree
namespace link_ {
enum class color : unsigned char { red, green, blue };
struct agg { int a; bool b; std::string s; };
struct poly { virtual ~poly() = default; virtual int f() const { return 1; } };
struct pad { int x; unsigned short y; std::uint16_t PADDING{}; };
template<class T> void facts(std::vector<unsigned long long>& v) {
    using O = opt::option<T>;
    v.push_back(sizeof(O)); v.push_back(alignof(O)); v.push_back(opt::option_traits<O>::max_level); v.push_back(sizeof(opt::option<O>));
}
inline std::vector<unsigned long long> all_facts_of() { return {}; }
}
namespace { // internal linkage: each unit computes its own
std::vector<unsigned long long> mine() {
    std::vector<unsigned long long> v;
    using namespace link_;
    facts<int>(v); facts<bool>(v); facts<color>(v); facts<double>(v); facts<std::string>(v); facts<std::string_view>(v); facts<std::vector<int>>(v); facts<std::unique_ptr<int>>(v); facts<std::shared_ptr<int>>(v);
    facts<std::pair<int, bool>>(v); facts<std::tuple<int, std::string>>(v); facts<std::array<bool, 2>>(v); facts<std::complex<float>>(v); facts<std::reference_wrapper<int>>(v); facts<poly>(v); facts<pad>(v); facts<agg>(v);
    facts<int link_::pad::*>(v); facts<int (*)()>(v); facts<std::variant<int, bool>>(v); facts<std::optional<int>>(v); facts<std::map<int, int>>(v);
    return v;
}
}
std::vector<unsigned long long> other_facts();
opt::option<int> link_make(int);
opt::option<std::string> link_pass(opt::option<std::string>, const opt::option<std::pair<int, bool>>&, opt::option<opt::option<bool>>&&);

#if TU == 2
std::vector<unsigned long long> other_facts() { return mine(); }
opt::option<int> link_make(int x) { return x < 0 ? opt::option<int>{opt::none} : opt::option<int>{x}; }
opt::option<std::string> link_pass(opt::option<std::string> s, const opt::option<std::pair<int, bool>>& p, opt::option<opt::option<bool>>&& b) {
    if (p && p->second && b && *b && **b) return s;
    if (b && !*b) return opt::none;
    return s.map([](const std::string& x) { return x + "!"; });
}
struct early { int v; };
static_assert(sizeof(opt::option<early>) >= sizeof(early), "");
// every member function of the class, whether anything uses it or not
template class opt::option<bool>;
template class opt::option<std::string>;
template class opt::option<std::unique_ptr<int>>;
template class opt::option<std::reference_wrapper<int>>;
template class opt::option<std::pair<int, bool>>;
template class opt::option<link_::poly>;
template class opt::option<link_::pad>;
template class opt::option<opt::option<int>>;
template class opt::option<const double>;
template class opt::option<link_::color>;
#else
template class opt::option<int>;
template class opt::option<int&>;
template class opt::option<const std::string&>;
template class opt::option<std::string_view>;
template class opt::option<std::vector<opt::option<int>>>;
template class opt::option<std::tuple<int, std::string>>;
template class opt::option<link_::agg>;
template class opt::option<int*>;
template class opt::option<float>;
template class opt::option<std::variant<int, std::string>>;
template struct opt::option_traits<int>;
template struct opt::option_traits<std::string>;
template struct std::hash<opt::option<int>>;

#define MC_DIGEST
#include "mc.hpp"
int main() {
    mc::init();
    mc::set_ctx("two translation units");
    const auto a = mine(), b = other_facts();
    mc::stats.states += a.size();
    MC_CHECK(a == b, "two translation units of one program disagree about the layout of an option");
    for (int i = -2; i < 3; ++i) { ++mc::stats.transitions; ++mc::stats.traces; auto o = link_make(i); MC_CHECK(o.has_value() == (i >= 0) && o.value_or(i) == i, "an option returned by another unit"); mc::obs(o.has_value()); }
    for (int s = 0; s < 2; ++s) for (int p = 0; p < 3; ++p) for (int k = 0; k < 4; ++k) {
        ++mc::stats.states; ++mc::stats.transitions; ++mc::stats.traces; mc::clear(); mc::push("string", s); mc::push("pair", p); mc::push("nested", k);
        opt::option<std::string> os; if (s) os = std::string(40, 'x');
        opt::option<std::pair<int, bool>> op; if (p) op = std::pair<int, bool>{p, p == 2};
        opt::option<opt::option<bool>> ob; if (k) ob.emplace(); if (k > 1) ob->emplace(k == 3);
        auto r = link_pass(os, op, std::move(ob));
        const bool pass = p == 2 && k == 3, none = k == 1;
        MC_CHECK(pass ? r == os : none ? !r : (r.has_value() == (s != 0) && (!s || *r == std::string(40, 'x') + "!")), "options passed to and from another unit");
        mc::obs(r.has_value() ? r->size() : 999u);
    }
    // with and without built-in traits, reflection and so on, one program always agrees with itself; sizes differ between them
    mc::set_ctx("two translation units", "layout");
    for (auto x : a) mc::obs(x);
    return mc::finish();
}
#endif
