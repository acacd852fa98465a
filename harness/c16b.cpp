// C16 (arguments): every way of building a contained value from arguments x every combination of argument categories.
#include "fn.hpp"
using namespace fn;
namespace {
template<class A> constexpr char code() { return std::is_lvalue_reference_v<A> ? (std::is_const_v<std::remove_reference_t<A>> ? 'c' : 'l') : (std::is_const_v<std::remove_reference_t<A>> ? 'k' : 'r'); }
struct tag1 {}; struct tag2 {}; struct tag3 {};
template<class A> constexpr bool is_tag = std::is_same_v<std::decay_t<A>, tag1> || std::is_same_v<std::decay_t<A>, tag2> || std::is_same_v<std::decay_t<A>, tag3>;
template<class A> constexpr char tag_code() { return std::is_same_v<std::decay_t<A>, tag1> ? '1' : std::is_same_v<std::decay_t<A>, tag2> ? '2' : '3'; }
// records the categories and the order of the arguments
template<int KIND> struct rec {
    char how[16] = ""; int lvl = 0; static inline int built = 0, copied = 0;
    template<class... A, std::enable_if_t<(is_tag<A> && ...), int> = 0> rec(A&&...) { ++built; int i = 0; ((how[i++] = code<A&&>(), how[i++] = tag_code<A>()), ...); how[i] = '.'; }
    template<class... A, std::enable_if_t<(is_tag<A> && ...), int> = 0> rec(std::initializer_list<int> l, A&&...) { ++built; int i = 0; how[i++] = 'i'; how[i++] = char('0' + l.size()); how[i++] = char('0' + *l.begin()); ((how[i++] = code<A&&>(), how[i++] = tag_code<A>()), ...); how[i] = '.'; }
    rec(const rec& o) { std::memcpy(how, o.how, 16); ++copied; } rec(rec&& o) noexcept { std::memcpy(how, o.how, 16); ++copied; }
    rec& operator=(const rec& o) { std::memcpy(how, o.how, 16); ++copied; return *this; }
    ~rec() {}
};
}
template<> struct opt::option_traits<rec<1>> { static constexpr std::uintmax_t max_level = 2; static std::uintmax_t get_level(const rec<1>* p) noexcept { return std::uintmax_t(p->lvl) - 1; } static void set_level(rec<1>* p, std::uintmax_t l) noexcept { p->lvl = int(l) + 1; } };
namespace {
tag1 t1; tag2 t2; tag3 t3;
template<int C, class T> decltype(auto) cat_of(T& t) { if constexpr (C == 0) return static_cast<T&>(t); else if constexpr (C == 1) return static_cast<const T&>(t); else if constexpr (C == 2) return static_cast<T&&>(t); else return static_cast<const T&&>(t); }
template<class R, class... A> void ways(A&&... a) {
    using O = opt::option<R>; R direct(static_cast<A&&>(a)...); const std::string want = direct.how;
    config cf("arguments", want.c_str());
    auto is = [&](const O& o, int copies, const char* what) { MC_CHECK(o.has_value() && want == o->how, what); MC_CHECK(R::copied == copies, "the value is built elsewhere and copied"); R::copied = 0; };
    R::copied = 0;
    { OP(in_place); O o(std::in_place, static_cast<A&&>(a)...); is(o, 0, "in_place construction forwards the arguments in order"); }
    if constexpr (sizeof...(A) > 0) { OP(constructor); O o(static_cast<A&&>(a)...); is(o, 0, "construction forwards the arguments in order"); }
    if constexpr (sizeof...(A) > 1) { OP(implicit); static_assert(std::is_constructible_v<O, A...>); auto f = [](O x) { return std::string(x.has_value() ? x->how : "empty"); }; MC_CHECK(f({static_cast<A&&>(a)...}) == want, "construction from a braced list"); R::copied = 0; }
    { OP(emplace); O o; auto& r = o.emplace(static_cast<A&&>(a)...); is(o, 0, "emplace forwards the arguments in order"); MC_CHECK(&r == &*o, "emplace returns the value"); auto& q = o.emplace(static_cast<A&&>(a)...); is(o, 0, "emplace over a value"); MC_CHECK(&q == &*o, "emplace returns the value"); }
    { OP(try_emplace); O o; auto& r = o.try_emplace(static_cast<A&&>(a)...); is(o, 0, "try_emplace forwards the arguments in order"); MC_CHECK(&r == &*o, "try_emplace returns the value"); const int b = R::built; auto& q = o.try_emplace(t3, t3, t3); is(o, 0, "try_emplace keeps a value"); MC_CHECK(&q == &*o && R::built == b, "try_emplace builds nothing when engaged"); }
    { OP(make_option); O o = opt::make_option<R>(static_cast<A&&>(a)...); is(o, 0, "make_option forwards the arguments in order"); }
    { OP(value_or_construct); O o; R r = o.value_or_construct(static_cast<A&&>(a)...); MC_CHECK(want == r.how && R::copied == 0, "value_or_construct forwards the arguments in order"); R s = std::move(o).value_or_construct(static_cast<A&&>(a)...); MC_CHECK(want == s.how && R::copied == 0, "value_or_construct of an rvalue"); o.emplace(t3, t3); const int b = R::built; R t = o.value_or_construct(static_cast<A&&>(a)...); MC_CHECK(std::string(t.how) == o->how && R::copied == 1 && R::built == b, "value_or_construct of an engaged option returns the value"); R::copied = 0; }
    { OP(initializer_list); std::initializer_list<int> il = {3, 4}; R d(il, static_cast<A&&>(a)...); const std::string w = d.how; O o(std::in_place, il, static_cast<A&&>(a)...); MC_CHECK(o.has_value() && w == o->how && R::copied == 0, "in_place construction from an initializer_list"); O m = opt::make_option<R>(il, static_cast<A&&>(a)...); MC_CHECK(m.has_value() && w == m->how && R::copied == 0, "make_option from an initializer_list"); O e; R r = e.value_or_construct({3, 4}, static_cast<A&&>(a)...); MC_CHECK(w == r.how && R::copied == 0, "value_or_construct from an initializer_list"); R s = std::move(e).value_or_construct({3, 4}, static_cast<A&&>(a)...); MC_CHECK(w == s.how, "value_or_construct of an rvalue from an initializer_list"); e.emplace(il, static_cast<A&&>(a)...); MC_CHECK(w == e->how, "emplace from an initializer_list"); O b{std::in_place, {3, 4}, static_cast<A&&>(a)...}; MC_CHECK(b.has_value() && w == b->how, "in_place construction from a braced list"); R::copied = 0; }
}
template<class R, int... C1> void combos(std::integer_sequence<int, C1...>) {
    ways<R>(); (ways<R>(cat_of<C1>(t1)), ...);
    auto two = [](auto c1) { constexpr int C = c1.value; (ways<R>(cat_of<C>(t1), cat_of<C1>(t2)), ...); }; (two(std::integral_constant<int, C1>{}), ...);
}
template<class R, int A, int... C> void three(std::integer_sequence<int, C...>) { auto mid = [](auto m) { constexpr int M = m.value; (ways<R>(cat_of<A>(t1), cat_of<M>(t2), cat_of<C>(t3)), ...); }; (mid(std::integral_constant<int, C>{}), ...); }

// ---- aggregates: braces, or a conversion to the aggregate itself ----
struct agg { int a; std::string b; std::unique_ptr<int> c; };
struct agg0 { int a; bool b; };
struct agg_init { int a = 7; bool b = true; };
struct agg_base : agg0 { int z; };
struct to_agg { int v; bool rv = false; operator agg0() const& { return {v, false}; } operator agg0() && { return {v, true}; } };
struct immovable_agg { int a; IM im; };
template<class T> bool eq(const T& x, int a, bool b) { return x.a == a && x.b == b; }
void aggregates() {
    mc::set_ctx("aggregate"); using O = opt::option<agg>;
    for (int n = 0; n < 4; ++n) {
        config cf("aggregate", "", n); std::string s(40, 'x'); const std::string* addr = &s; (void)addr;
        auto is = [&](const O& o, int a, const std::string& b, int c, const char* what) { MC_CHECK(o.has_value() && o->a == a && o->b == b && (c ? o->c && *o->c == c : !o->c), what); };
        if (n == 0) { OP(none); O o(std::in_place); is(o, 0, "", 0, "no arguments"); O e; e.emplace(); is(e, 0, "", 0, "emplace()"); O t; t.try_emplace(); is(t, 0, "", 0, "try_emplace()"); agg v = std::move(opt::option<agg>()).value_or_construct(); MC_CHECK(v.a == 0 && v.b.empty() && !v.c, "value_or_construct()"); }
        if (n == 1) { OP(one); O o(std::in_place, 4); is(o, 4, "", 0, "one argument"); O i(4); is(i, 4, "", 0, "one argument"); O e; e.emplace(5); is(e, 5, "", 0, "emplace one"); }
        if (n == 2) { OP(two); O o(4, s); is(o, 4, s, 0, "two arguments"); std::string m = s; O p(std::in_place, 4, std::move(m)); is(p, 4, s, 0, "two arguments"); MC_CHECK(m.empty(), "an rvalue argument is moved"); O q; q.emplace(6, s); is(q, 6, s, 0, "emplace two"); MC_CHECK(s.size() == 40, "an lvalue argument is copied"); }
        if (n == 3) { OP(three); O o(4, s, std::make_unique<int>(3)); is(o, 4, s, 3, "three arguments"); O p(std::in_place, 4, s, std::make_unique<int>(2)); is(p, 4, s, 2, "three arguments"); O q = opt::make_option<agg>(9, s, std::make_unique<int>(8)); is(q, 9, s, 8, "make_option"); O e(1, s); e.emplace(2, "zz", std::make_unique<int>(5)); is(e, 2, "zz", 5, "emplace three"); agg v = std::move(e).value_or_construct(1, s, nullptr); MC_CHECK(v.a == 2 && *v.c == 5, "value_or_construct engaged"); O f; f = agg{3, s, std::make_unique<int>(1)}; is(f, 3, s, 1, "assignment of an aggregate"); O g(agg{3, s, nullptr}); is(g, 3, s, 0, "construction from an aggregate"); O h = std::move(g); is(h, 3, s, 0, "move"); }
    }
    for (int st = 0; st < 2; ++st) {
        config cf("conversion to an aggregate", "", st); OP(conversion); using P = opt::option<agg0>; to_agg c{5}; const to_agg cc{6};
        P a(c), b = cc, d = to_agg{8}; MC_CHECK(a && eq(*a, 5, false) && b && eq(*b, 6, false) && d && eq(*d, 8, true), "construction from an object convertible to the aggregate");
        P e; if (st) e.emplace(1, true); e = c; MC_CHECK(e && eq(*e, 5, false), "assignment of an object convertible to the aggregate"); if (st) e = opt::none; e = to_agg{4}; MC_CHECK(e && eq(*e, 4, true), "assignment of an rvalue"); P f; if (st) f.emplace(1, true); f.emplace(cc); MC_CHECK(f && eq(*f, 6, false), "emplace"); P t; t.try_emplace(c); MC_CHECK(t && eq(*t, 5, false), "try_emplace");
        opt::option<to_agg> src; if (st) src.emplace(c); P g(src), h(std::move(src)); MC_CHECK(g.has_value() == bool(st) && h.has_value() == bool(st) && (!st || (eq(*g, 5, false) && eq(*h, 5, true))), "construction from an option"); P i(2, true); i = src; MC_CHECK(i.has_value() == bool(st) && (!st || eq(*i, 5, false)), "assignment of an option"); P j; j = std::move(src); MC_CHECK(j.has_value() == bool(st) && (!st || eq(*j, 5, true)), "assignment of an rvalue option");
        P m = opt::make_option<agg0>(c); MC_CHECK(m && eq(*m, 5, false), "make_option"); P em; agg0 v = em.value_or(c), w = em.value_or_construct(c), x = em.value_or_construct(3, true); MC_CHECK(eq(v, 5, false) && eq(w, 5, false) && eq(x, 3, true), "value_or"); auto z = opt::option_cast<agg0>(opt::option<to_agg>(to_agg{9})); MC_CHECK(z && eq(*z, 9, true), "option_cast");
    }
    { config cf("defaults"); OP(defaults); opt::option<agg_init> a(std::in_place), b(1), c(1, false), d; d.emplace(); MC_CHECK(eq(*a, 7, true) && eq(*b, 1, true) && eq(*c, 1, false) && eq(*d, 7, true), "default member initialisers"); d.emplace(3); MC_CHECK(eq(*d, 3, true), "default member initialisers"); }
    { config cf("bases"); OP(bases); opt::option<agg_base> a(agg0{1, true}, 5), b; b.emplace(agg0{2, false}, 6); MC_CHECK(a->a == 1 && a->b && a->z == 5 && b->a == 2 && b->z == 6, "aggregate with a base"); }
    { config cf("std::array"); OP(array); std::array<int, 2> v{{1, 2}}; opt::option<std::array<int, 2>> a(v), b(std::in_place, v), c; c = v; MC_CHECK(*a == v && *b == v && *c == v, "array"); const auto d = a; MC_CHECK(*d == v, "array"); }
    { config cf("immovable member"); OP(immovable); opt::option<immovable_agg> a; MC_CHECK(!a, "empty"); }
}
void deduction() {
    mc::set_ctx("deduction"); config cf("deduction"); OP(deduction); int i = 3; const int ci = 4; std::string s = "abc"; opt::option<int> o(5);
    opt::option a{i}; opt::option b{ci}; opt::option c{s}; opt::option d{std::move(s)}; opt::option e{o}; opt::option f{7.5}; opt::option g = i; opt::option h{std::make_unique<int>(4)}; opt::option p{&i}; opt::option l{"lit"};
    static_assert(same<decltype(a), opt::option<int>> && same<decltype(b), opt::option<int>> && same<decltype(c), opt::option<std::string>> && same<decltype(d), opt::option<std::string>> && same<decltype(e), opt::option<int>> && same<decltype(f), opt::option<double>> && same<decltype(g), opt::option<int>> && same<decltype(h), opt::option<std::unique_ptr<int>>> && same<decltype(p), opt::option<int*>> && same<decltype(l), opt::option<const char*>>);
    MC_CHECK(*a == 3 && *b == 4 && *c == "abc" && *d == "abc" && *e == 5 && *f == 7.5 && *g == 3 && **h == 4 && *p == &i && std::string(*l) == "lit", "deduced options hold the value");
    auto m = opt::make_option(i); auto n = opt::make_option(o); auto q = opt::make_option(std::as_const(c)); static_assert(same<decltype(m), opt::option<int>> && same<decltype(n), opt::option<opt::option<int>>> && same<decltype(q), opt::option<opt::option<std::string>>>); MC_CHECK(*m == 3 && n && n->has_value() && **n == 5 && **q == "abc", "make_option wraps its argument");
}
}
int main() {
    mc::init(); using S = std::integer_sequence<int, 0, 1, 2, 3>;
    mc::set_ctx("arguments, no traits"); combos<rec<0>>(S{}); three<rec<0>, 0>(S{}); three<rec<0>, 2>(S{});
    mc::set_ctx("arguments, traits"); combos<rec<1>>(S{}); three<rec<1>, 1>(S{});
    aggregates(); deduction();
    return mc::finish();
}
