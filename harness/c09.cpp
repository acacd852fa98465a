// C09: monadic methods: who is called, with what, how often, and what comes back.
// PART 0: every payload kind x state x category x method (0-6); 7: kinds of callables, exceptions, mutation.
#include "fn.hpp"
using namespace fn;
struct seen_t { int calls = 0; const void* addr = nullptr; int cat = -1; };
inline seen_t seen;
template<class X> void note(X&&) {}
template<class X> void saw(const X* p, int c) { ++seen.calls; seen.addr = p; seen.cat = c; }
// The category of a forwarding parameter x of type X&&.
template<class X> constexpr int cat_of() {
    constexpr bool l = std::is_lvalue_reference_v<X>, c = std::is_const_v<std::remove_reference_t<X>>;
    return l ? (c ? CLV : LV) : (c ? CRV : RV);
}
#define NOTE(x) saw(std::addressof(x), cat_of<decltype(x)>())
template<class K> int index_of(const typename K::T& x) { for (int i = 0; i < K::N; ++i) { if constexpr (same<K, k_im>) { if (x.v == i) return i; } else if (is_value<K>(x, i)) return i; } return -9; }
template<class K, class F> void on(int s, F f) {
    using O = opt_of<K>;
    if constexpr (same<K, k_im>) { O o; if (s >= 0) o.emplace(s); f(o); }
    else { O o; if (s >= 0) o.emplace(K::make(s)); f(o); }
}
struct konst { template<class X> int operator()(X&&) const { return 1; } };
struct explicit_bool { bool b; explicit operator bool() const { return b; } };
struct IM2 { int v; explicit IM2(int x) : v(x) {} IM2(IM2&&) = delete; };

template<class K> void part0(K) {
    using T = typename K::T; using O = opt_of<K>;
    mc::set_ctx(K::name);
    for (int s = -1; s < K::N; ++s) each_cat([&](auto c_) {
        constexpr cat C = c_.value; using R = as_t<C, T>;
        const bool e = s >= 0;
        // f(o, p): run one operation; afterwards the call log and the option are checked
        auto run = [&](const char* what, int want_calls, int want_cat, bool may_move, auto f) {
            on<K>(s, [&](O& o) {
                config cf(what, cat_name[C], s);
                const T* p = o.ptr_or_null(); seen = {}; op(what); clear_log();
                f(o, p);
                MC_CHECK(seen.calls == want_calls, "number of calls of the function");
                if (seen.calls) { MC_CHECK(seen.addr == p, "function called with the stored object"); MC_CHECK(seen.cat == want_cat, "value category of the argument"); }
                MC_CHECK(o.has_value() == e, "operation changed the option's engagement");
                if (e && o.has_value() && !may_move) { MC_CHECK(index_of<K>(*o) == s, "operation changed the value"); MC_CHECK(o.ptr_or_null() == p, "object moved elsewhere"); }
            });
        };
        run("map to int", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) { NOTE(x); return index_of<K>(x) * 3; });
            MC_CHECK((same<decltype(r), opt::option<int>>), "type of map"); MC_CHECK(r.has_value() == e && (!e || *r == s * 3), "result of map"); });
        run("map to bool", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) { NOTE(x); return index_of<K>(x) == 1; });
            MC_CHECK((same<decltype(r), opt::option<bool>>), "type of map"); MC_CHECK(r.has_value() == e && (!e || *r == (s == 1)), "result of map"); });
        run("map to string", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) -> const std::string { NOTE(x); return std::string(std::size_t(index_of<K>(x) * 30), 'z'); });
            MC_CHECK((same<decltype(r), opt::option<std::string>>), "type of map with a const result"); MC_CHECK(r.has_value() == e && (!e || r->size() == std::size_t(s * 30)), "result of map"); });
        run("map to immovable", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) { NOTE(x); return IM2(index_of<K>(x) + 5); });
            MC_CHECK((same<decltype(r), opt::option<IM2>>), "type of map"); MC_CHECK(r.has_value() == e && (!e || r->v == s + 5), "result of map"); });
        run("map to reference", e, C, false, [&](O& o, const T* p) { auto r = as<C>(o).map([](auto&& x) -> decltype(x) { NOTE(x); return static_cast<decltype(x)>(x); });
            MC_CHECK((same<decltype(r), opt::option<R>>), "type of map with a reference result"); MC_CHECK(r.has_value() == e && static_cast<const T*>(r.ptr_or_null()) == p, "mapped reference designates the object"); });
        run("map to option", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) { NOTE(x); return index_of<K>(x) == 1 ? opt::option<bool>(true) : opt::option<bool>(); });
            MC_CHECK((same<decltype(r), opt::option<opt::option<bool>>>), "type of map to option"); MC_CHECK(r.has_value() == e, "map does not flatten"); if (r) MC_CHECK(r->has_value() == (s == 1), "mapped option"); });
        run("map to pointer", e, C, false, [&](O& o, const T* p) { auto r = as<C>(o).map([](auto&& x) { NOTE(x); return static_cast<const T*>(std::addressof(x)); });
            MC_CHECK((same<decltype(r), opt::option<const T*>>), "type of map"); MC_CHECK(r.has_value() == e && (!e || *r == p), "result of map"); });
        if constexpr (C == RV ? K::movable : K::copyable) {
            run("map to value", e, C, C == RV, [&](O& o, const T*) { auto r = as<C>(o).map([](auto&& x) -> T { NOTE(x); return static_cast<decltype(x)>(x); });
                MC_CHECK((same<decltype(r), opt::option<T>>), "type of map to value"); MC_CHECK(r.has_value() == e && (!e || index_of<K>(*r) == s), "result of map");
                if constexpr (K::logged) { if (e) MC_CHECK(C == RV ? (o->v == 77 && lg.cc == 0) : lg.cc == 1, "map copies lvalues and moves rvalues"); } });
            run("map by value", e, LV, C == RV, [&](O& o, const T*) { seen = {}; auto r = as<C>(o).map([p = o.ptr_or_null()](T x) { saw(p, LV); return index_of<K>(x); });
                MC_CHECK(r.has_value() == e && (!e || *r == s), "function taking the value");
                if constexpr (K::logged) { if (e) MC_CHECK(C == RV ? (o->v == 77 && lg.cc == 0) : lg.cc == 1, "map copies lvalues and moves rvalues"); } });
        }
        // and_then
        for (int k = 0; k < 2; ++k) {
            run("and_then", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).and_then([k](auto&& x) { NOTE(x); return k ? opt::option<int>(index_of<K>(x)) : opt::option<int>(); });
                MC_CHECK((same<decltype(r), opt::option<int>>), "type of and_then"); MC_CHECK(r.has_value() == (e && k) && (!r || *r == s), "result of and_then"); });
            run("and_then to const nested", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).and_then([k](auto&& x) -> const opt::option<opt::option<bool>> { NOTE(x); opt::option<opt::option<bool>> q; if (k) q.emplace(); return q; });
                MC_CHECK((same<decltype(r), opt::option<opt::option<bool>>>), "type of and_then"); MC_CHECK(r.has_value() == (e && k) && (!r || !r->has_value()), "result of and_then"); });
            run("and_then to lvalue", e, C, false, [&](O& o, const T*) { opt::option<std::string> st; if (k) st = "stored"; auto r = as<C>(o).and_then([&](auto&& x) -> opt::option<std::string>& { NOTE(x); return st; });
                MC_CHECK((same<decltype(r), opt::option<std::string>>), "type of and_then"); MC_CHECK(r.has_value() == (e && k) && (!r || *r == "stored"), "result of and_then"); MC_CHECK(st.has_value() == bool(k) && (!k || *st == "stored"), "and_then leaves the function's result alone"); });
        }
        // or_else
        if constexpr (C == RV ? K::movable : K::copyable) for (int k = -1; k < K::N; ++k)
            on<K>(s, [&](O& o) {
                config cf("or_else", cat_name[C], s, k + 1); seen = {}; clear_log(); op("or_else");
                auto r = as<C>(o).or_else([k] { ++seen.calls; return build<K>(k); });
                const log_t l = lg;
                MC_CHECK((same<decltype(r), O>), "type of or_else"); MC_CHECK(seen.calls == !e, "or_else calls the function exactly when empty");
                const int want = e ? s : k; MC_CHECK(r.has_value() == (want >= 0), "engagement of or_else"); if (r && want >= 0) MC_CHECK(is_value<K>(*r, want), "value of or_else");
                MC_CHECK(o.has_value() == e, "or_else changed the engagement"); if (e && C != RV) MC_CHECK(is_value<K>(*o, s), "or_else changed the value");
                if constexpr (K::logged) { if (e) MC_CHECK(C == RV ? (o->v == 77 && l.cc == 0) : l.cc == 1, "or_else copies lvalues and moves rvalues"); }
            });
        // map_or, with every category of the default
        each_cat([&](auto d_) {
            constexpr cat D = d_.value;
            for (int how = 0; how < 2; ++how) run("map_or", e, C, false, [&](O& o, const T*) {
                L0 def(3); clear_log(); mc::push(cat_name[D]);
                L0 r = how ? as<C>(o).map_or(as<D>(def), [](auto&& x) { NOTE(x); return L0(index_of<K>(x) + 40); }) : as<C>(o).map_or(as<D>(def), [](auto&& x) { NOTE(x); return index_of<K>(x) + 40; });
                const log_t l = lg;
                MC_CHECK((same<decltype(as<C>(o).map_or(as<D>(def), konst{})), L0>), "type of map_or is the default's");
                MC_CHECK(r.v == (e ? s + 40 : 3), "result of map_or"); MC_CHECK(l.cc == (!e && D != RV), "map_or copies the default only when it is used and an lvalue");
                MC_CHECK(def.v == (!e && D == RV ? 77 : 3), "map_or moves the default only when it is used and an rvalue"); });
        });
        run("map_or with literal", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map_or(-1L, [](auto&& x) { NOTE(x); return short(index_of<K>(x)); }); MC_CHECK((same<decltype(r), long>), "type of map_or"); MC_CHECK(r == (e ? s : -1), "result of map_or"); });
        // map_or_else
        { int dcalls = 0;
          run("map_or_else", e, C, false, [&](O& o, const T*) { dcalls = 0; auto r = as<C>(o).map_or_else([&] { ++dcalls; return -5; }, [](auto&& x) { NOTE(x); return index_of<K>(x); });
              MC_CHECK((same<decltype(r), int>), "type of map_or_else"); MC_CHECK(r == (e ? s : -5), "result of map_or_else"); MC_CHECK(dcalls == !e, "map_or_else calls the default exactly when empty"); });
          run("map_or_else to immovable", e, C, false, [&](O& o, const T*) { dcalls = 0; auto r = as<C>(o).map_or_else([&] { ++dcalls; return IM2(-5); }, [](auto&& x) { NOTE(x); return IM2(index_of<K>(x)); });
              MC_CHECK((same<decltype(r), IM2>), "type of map_or_else"); MC_CHECK(r.v == (e ? s : -5), "result of map_or_else"); MC_CHECK(dcalls == !e, "map_or_else calls the default exactly when empty"); });
          run("map_or_else to move-only", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).map_or_else([&] { return std::make_unique<int>(-5); }, [](auto&& x) { NOTE(x); return std::make_unique<int>(index_of<K>(x)); });
              MC_CHECK(r && *r == (e ? s : -5), "result of map_or_else"); });
          run("map_or_else to void", e, C, false, [&](O& o, const T*) { int d2 = 0; as<C>(o).map_or_else([&] { ++d2; }, [](auto&& x) { NOTE(x); }); MC_CHECK(d2 == !e, "map_or_else calls the default exactly when empty"); });
        }
        // has_value_and, inspect
        for (int k = 0; k < 2; ++k)
            run("has_value_and", e, C, false, [&](O& o, const T*) { auto r = as<C>(o).has_value_and([k](auto&& x) { NOTE(x); return k == 1; }); MC_CHECK((same<decltype(r), bool>), "type of has_value_and"); MC_CHECK(r == (e && k), "result of has_value_and"); });
        run("inspect", e, C, false, [&](O& o, const T*) { auto&& r = as<C>(o).inspect([](auto&& x) { NOTE(x); return 3; }); MC_CHECK((same<decltype(as<C>(o).inspect(konst{})), std::conditional_t<C == CLV || C == CRV, const O&, O&>>), "type of inspect"); MC_CHECK(std::addressof(r) == std::addressof(o), "inspect returns the option"); });
        // filter
        if constexpr (C == RV ? K::movable : K::copyable) for (int k = 0; k < 2; ++k) for (int kind = 0; kind < 2; ++kind)
            run("filter", e, C == LV || C == RV ? LV : CLV, C == RV && k, [&](O& o, const T*) {
                mc::push("predicate", k);
                auto r = kind ? as<C>(o).filter([k](auto&& x) { NOTE(x); return explicit_bool{k == 1}; }) : as<C>(o).filter([k](auto&& x) { NOTE(x); return k == 1; }); const log_t l = lg;
                MC_CHECK((same<decltype(r), O>), "type of filter"); MC_CHECK(r.has_value() == (e && k), "engagement of filter"); if (r && e) MC_CHECK(is_value<K>(*r, s), "value of filter");
                if constexpr (K::logged) { MC_CHECK(l.cc == (e && k && C != RV), "filter copies from lvalues only, when it keeps"); if (e) MC_CHECK(o->v == (C == RV && k ? 77 : s), "filter moves from rvalues only, when it keeps"); } });
        // take_if and take (non-const lvalue only)
        if constexpr (K::movable) if constexpr (C == LV) for (int k = 0; k < 3; ++k)
            on<K>(s, [&](O& o) {
                config cf(k == 2 ? "take" : "take_if", cat_name[C], s, k); const T* p = o.ptr_or_null(); seen = {}; clear_log(); op("take_if");
                auto r = k == 2 ? o.take() : o.take_if([k](auto&& x) { NOTE(x); return k == 1; }); const log_t l = lg;
                MC_CHECK((same<decltype(r), O>), "type of take_if"); MC_CHECK(seen.calls == (e && k != 2), "take_if calls the predicate exactly when engaged");
                if (seen.calls) { MC_CHECK(seen.addr == p, "predicate called with the stored object"); MC_CHECK(seen.cat == LV, "predicate called with a non-const lvalue"); }
                const bool t = e && k; MC_CHECK(r.has_value() == t && (!t || is_value<K>(*r, s)), "result of take_if");
                MC_CHECK(o.has_value() == (e && !t), "take_if empties the option exactly when it takes"); if (o) MC_CHECK(is_value<K>(*o, s), "take_if changed a value it left");
                if constexpr (K::logged) MC_CHECK(l.cc == 0 && l.ca == 0, "take moves");
            });
    });
}

// ---- kinds of callables ----
struct B { int d = 4; int get() const { return d; } int& ref() { return d; } int lq() & { return d + 1; } int rq() && { return d + 2; } int add(int x = 0) { return d + x; } int nx() const noexcept { return d + 3; } };
struct Dv : B { int e = 6; };
int free_fn(const B& b) { return b.d * 2; }
struct only_r { int operator()(const B& b) && { return b.d; } int operator()(const B&) & = delete; int operator()(const B&) const& = delete; int operator()() && { return -1; } };
struct only_l { int n = 0; int operator()(const B& b) & { ++n; return b.d; } int operator()(const B&) && = delete; int operator()() & { ++n; return -1; } int operator()() && = delete; };
struct only_c { int operator()(const B& b) const { return b.d; } int operator()(const B&) = delete; int operator()() const { return -1; } int operator()() = delete; };
struct pinned { int n = 0; pinned() = default; pinned(const pinned&) = delete; int operator()(const B& b) { ++n; return b.d; } int operator()() { ++n; return -1; } };
// every method, every form of the option: the callable is called as what it was passed as (r rvalue, l lvalue)
struct rec_ { mutable int l = 0, r = 0; void hit(bool rv) const { (rv ? r : l)++; } };
struct cat_v : rec_ { int operator()(const B& b) & { hit(false); return b.d; } int operator()(const B& b) && { hit(true); return b.d; } };                   // map, filter, ...
struct cat_o : rec_ { opt::option<int> operator()(const B& b) & { hit(false); return b.d; } opt::option<int> operator()(const B& b) && { hit(true); return b.d; } };
struct cat_0 : rec_ { int operator()() & { hit(false); return -1; } int operator()() && { hit(true); return -1; } };
template<class T> struct cat_e : rec_ { opt::option<T> operator()() & { hit(false); return opt::none; } opt::option<T> operator()() && { hit(true); return opt::none; } };
// results map can build in place: trivially destructible or not, with spare representations or not, aggregates or not, not movable
struct agt { int x; int y; }; struct ags { std::string s; int n; }; struct agi { int x; std::unique_ptr<int> p; agi(agi&&) = delete; explicit agi(int v) : x(v) {} };
template<class R> R make_() { if constexpr (std::is_same_v<R, std::string>) return "abc"; else if constexpr (std::is_same_v<R, std::vector<int>>) return R{1}; else if constexpr (std::is_same_v<R, std::unique_ptr<int>>) return std::make_unique<int>(3);
    else if constexpr (std::is_same_v<R, ags>) return ags{"abc", 1}; else if constexpr (std::is_same_v<R, agi>) return agi(3); else if constexpr (std::is_same_v<R, std::array<std::vector<int>, 1>>) return R{{{1}}}; else if constexpr (std::is_same_v<R, int*>) { static int o; return &o; }
    else if constexpr (std::is_reference_v<R>) { static std::remove_reference_t<R> o{}; return static_cast<R>(o); } else return R{}; }
inline int arg_cat; // category of the argument: 0 none, 1 lvalue, 2 const lvalue, 3 rvalue, 4 const rvalue
template<class X> constexpr int arg_cat_of = 1 + std::is_const_v<std::remove_reference_t<X>> + 2 * !std::is_lvalue_reference_v<X>;
template<class R> struct cat_m : rec_ { template<class X> R operator()(X&&) & { hit(false); arg_cat = arg_cat_of<X>; return make_<R>(); } template<class X> R operator()(X&&) && { hit(true); arg_cat = arg_cat_of<X>; return make_<R>(); } };
template<class S> void callable_categories(S&& s, bool e) {
    using T = typename std::decay_t<S>::value_type;
    auto one = [&](const char* what, auto f, bool called, auto call) {
        mc::scope sc(what); ++mc::stats.transitions; ++mc::stats.traces;
        { auto x = f; call(x); MC_CHECK(x.l == called && x.r == 0, "lvalue callables are called as lvalues"); }
        { auto x = f; call(std::move(x)); MC_CHECK(x.l == 0 && x.r == called, "rvalue callables are called as rvalues"); }
    };
    #define S_ static_cast<S&&>(s)
    #define F_ static_cast<decltype(f)&&>(f)
    one("map", cat_v{}, e, [&](auto&& f) { (void)S_.map(F_); });
    auto built = [&](const char* what, auto f) { one(what, f, e, [&](auto&& f) { arg_cat = 0; auto&& r = S_.map(F_); MC_CHECK(r.has_value() == e, "engagement of map"); MC_CHECK(arg_cat == (e ? arg_cat_of<S> : 0), "map passes the value as the option was passed"); }); };
    built("map to bool", cat_m<bool>{}); built("map to float", cat_m<float>{}); built("map to a pointer", cat_m<int*>{}); built("map to string", cat_m<std::string>{}); built("map to vector", cat_m<std::vector<int>>{}); built("map to unique_ptr", cat_m<std::unique_ptr<int>>{});
    built("map to an aggregate", cat_m<agt>{}); built("map to an aggregate with a string", cat_m<ags>{}); built("map to array", cat_m<std::array<float, 2>>{}); built("map to array of vectors", cat_m<std::array<std::vector<int>, 1>>{}); built("map to a class that cannot move", cat_m<agi>{});
    built("map to a reference", cat_m<int&>{}); built("map to a const reference", cat_m<const std::string&>{}); built("map to an rvalue reference", cat_m<int&&>{}); built("map to pair", cat_m<std::pair<int, float>>{}); built("map to option", cat_m<opt::option<int>>{});
    one("and_then", cat_o{}, e, [&](auto&& f) { (void)S_.and_then(F_); });
    one("or_else", cat_e<T>{}, !e, [&](auto&& f) { (void)S_.or_else(F_); });
    one("map_or", cat_v{}, e, [&](auto&& f) { (void)S_.map_or(7, F_); });
    one("map_or_else, value", cat_v{}, e, [&](auto&& f) { (void)S_.map_or_else([] { return 7; }, F_); });
    one("map_or_else, default", cat_0{}, !e, [&](auto&& f) { (void)S_.map_or_else(F_, [](const B& b) { return b.d; }); });
    one("filter", cat_v{}, e, [&](auto&& f) { (void)S_.filter(F_); });
    one("inspect", cat_v{}, e, [&](auto&& f) { (void)S_.inspect(F_); });
    one("has_value_and", cat_v{}, e, [&](auto&& f) { (void)S_.has_value_and(F_); });
    one("zip_with", cat_v{}, e, [&](auto&& f) { (void)opt::zip_with(F_, S_); });
    if constexpr (!std::is_const_v<std::remove_reference_t<S>>) one("take_if", cat_v{}, e, [&](auto&& f) { auto c = s; (void)c.take_if(F_); });
    #undef S_
    #undef F_
}
struct boom {};
template<class OB> void callables(const char* name, OB make) {
    mc::set_ctx("callables", name);
    for (int s = 0; s < 2; ++s) {
        using O = decltype(make(s)); config cf("callables", "", s); O o = make(s); const O& co = o; const bool e = s;
        OP(functions);
        MC_CHECK(o.map(free_fn) == (e ? opt::option<int>(8) : opt::none), "map with a function"); MC_CHECK(o.map(&free_fn) == (e ? opt::option<int>(8) : opt::none), "map with a function pointer");
        std::function<int(const B&)> sf = free_fn; MC_CHECK(o.map(sf) == (e ? opt::option<int>(8) : opt::none), "map with std::function");
        MC_CHECK(o.has_value_and(free_fn) == e && co.map_or(7, free_fn) == (e ? 8 : 7) && o.map_or_else([] { return 9; }, free_fn) == (e ? 8 : 9), "functions");
        OP(data member pointers);
        { auto r = o.map(&B::d); MC_CHECK((same<decltype(r), opt::option<int&>>), "map with a data member pointer gives a reference"); MC_CHECK(r.has_value() == e && (!e || &*r == &o->d), "map with a data member pointer"); }
        { auto r = co.map(&B::d); MC_CHECK((same<decltype(r), opt::option<const int&>>), "map with a data member pointer (const)"); MC_CHECK(r.has_value() == e && (!e || &*r == &co->d), "map with a data member pointer"); }
        { auto r = std::move(o).map(&B::d); MC_CHECK((same<decltype(r), opt::option<int&&>>), "map with a data member pointer (rvalue)"); MC_CHECK(r.has_value() == e && (!e || r.ptr_or_null() == &o->d), "map with a data member pointer"); }
        MC_CHECK(o.has_value_and(&B::d) == e && o.map_or(7, &B::d) == (e ? 4 : 7), "data member pointers"); o.inspect(&B::d);
        OP(member function pointers);
        MC_CHECK(o.map(&B::get) == (e ? opt::option<int>(4) : opt::none) && co.map(&B::get) == (e ? opt::option<int>(4) : opt::none), "map with a const member function");
        MC_CHECK(co.map(&B::nx) == (e ? opt::option<int>(7) : opt::none), "map with a noexcept member function");
        MC_CHECK(o.map(&B::lq) == (e ? opt::option<int>(5) : opt::none) && std::move(o).map(&B::rq) == (e ? opt::option<int>(6) : opt::none), "map with ref-qualified member functions");
        { auto r = o.map(&B::ref); MC_CHECK((same<decltype(r), opt::option<int&>>) && r.has_value() == e && (!e || &*r == &o->d), "map with a member function returning a reference"); }
        MC_CHECK(co.has_value_and(&B::get) == e && co.map_or(7, &B::get) == (e ? 4 : 7) && o.map_or_else([] { return 9; }, &B::get) == (e ? 4 : 9), "member functions"); o.inspect(&B::get);
        MC_CHECK(o.filter(&B::get).has_value() == e && co.filter(&B::d).has_value() == e, "filter with member pointers");
        OP(qualified function objects);
        MC_CHECK(o.map(only_r{}) == (e ? opt::option<int>(4) : opt::none) && co.has_value_and(only_r{}) == e && o.map_or(7, only_r{}) == (e ? 4 : 7) && o.map_or_else(only_r{}, only_r{}) == (e ? 4 : -1), "rvalue callables are called as rvalues"); o.inspect(only_r{}); (void)o.filter(only_r{});
        only_l fl; MC_CHECK(o.map(fl) == (e ? opt::option<int>(4) : opt::none) && co.has_value_and(fl) == e && o.map_or(7, fl) == (e ? 4 : 7) && o.map_or_else(fl, fl) == (e ? 4 : -1), "lvalue callables are called as lvalues"); o.inspect(fl); (void)o.filter(fl); MC_CHECK(fl.n == (e ? 6 : 1), "the callable itself is called");
        const only_c fc{}; MC_CHECK(o.map(fc) == (e ? opt::option<int>(4) : opt::none) && co.has_value_and(fc) == e && o.map_or(7, fc) == (e ? 4 : 7) && o.map_or_else(fc, fc) == (e ? 4 : -1), "const callables are called as const"); o.inspect(fc); (void)o.filter(fc);
        pinned fp; MC_CHECK(o.map(fp) == (e ? opt::option<int>(4) : opt::none) && co.has_value_and(fp) == e && o.map_or(7, fp) == (e ? 4 : 7) && o.map_or_else(fp, fp) == (e ? 4 : -1), "callables are not copied"); o.inspect(fp); (void)o.filter(fp); MC_CHECK(fp.n == (e ? 6 : 1), "the callable itself is called");
        auto once = [u = std::make_unique<int>(2)](const B& b) mutable { return b.d + *u; }; MC_CHECK(o.map(std::move(once)) == (e ? opt::option<int>(6) : opt::none), "move-only callable"); MC_CHECK(o.map(once) == (e ? opt::option<int>(6) : opt::none), "move-only callable as lvalue");
        OP(categories of callables); callable_categories(o, e); callable_categories(co, e); callable_categories(std::move(o), e); callable_categories(std::move(co), e);
        OP(mutation through the argument);
        { O x = make(s); x.inspect([](B& b) { b.d = 11; }); if (e) MC_CHECK(x->d == 11, "inspect passes the object itself"); }
        { O x = make(s); (void)x.map([](B& b) { return b.d = 12; }); if (e) MC_CHECK(x->d == 12, "map passes the object itself"); }
        { O x = make(s); (void)x.has_value_and([](B& b) { b.d = 13; return false; }); if (e) MC_CHECK(x->d == 13, "has_value_and passes the object itself"); }
        { O x = make(s); auto r = x.take_if([](B& b) { b.d = 14; return false; }); MC_CHECK(!r && x.has_value() == e, "refused take_if"); if (e) MC_CHECK(x->d == 14, "take_if passes the object itself"); auto r2 = x.take_if([](B& b) { return ++b.d == 15; }); MC_CHECK(r2.has_value() == e && !x && (!e || r2->d == 15), "take_if takes the modified value"); }
        { O x = make(s); auto r = x.filter([](B& b) { b.d = 16; return true; }); MC_CHECK(r.has_value() == e && x.has_value() == e && (!e || (r->d == 16 && x->d == 16)), "filter returns the modified value"); }
        OP(exceptions);
        for (int w = 0; w < 9; ++w) {
            O x = make(s); const O& cx = x; bool got = false; mc::push("throwing method", w); ++mc::stats.transitions;
            auto f = [](const B&) -> int { throw boom{}; }; auto d = []() -> int { throw boom{}; };
            try { switch (w) { case 0: (void)x.map(f); break; case 1: (void)x.and_then([](const B&) -> opt::option<int> { throw boom{}; }); break; case 2: (void)x.has_value_and(f); break; case 3: x.inspect(f); break; case 4: (void)x.filter(f); break;
                case 5: (void)x.take_if(f); break; case 6: (void)x.map_or(1, f); break; case 7: (void)x.map_or_else(d, f); break; default: (void)cx.or_else([]() -> O { throw boom{}; }); } } catch (boom&) { got = true; }
            MC_CHECK(got == (w == 7 ? true : w == 8 ? !e : e), "the function's exception reaches the caller"); MC_CHECK(x.has_value() == e && (!e || x->d == 4), "option unchanged when the function throws"); mc::pop();
        }
    }
}
template<class P> void through_pointer(const char* name, P p, B* target) {
    mc::set_ctx("member pointers through", name);
    for (int s = 0; s < 2; ++s) {
        config cf("through pointer", "", s); using O = opt::option<P>; O o = s ? O(p) : O(); const O& co = o; OP(map);
        { auto r = o.map(&B::d); MC_CHECK((same<decltype(r), opt::option<int&>>), "map with member pointer through a pointer"); MC_CHECK(r.has_value() == bool(s) && (!s || &*r == &target->d), "map with a data member pointer through a pointer"); }
        { auto r = co.map(&B::d); MC_CHECK(r.has_value() == bool(s) && (!s || &*r == &target->d), "map with a data member pointer through a pointer"); }
        MC_CHECK(o.map(&B::get) == (s ? opt::option<int>(4) : opt::none) && co.map(&B::get) == (s ? opt::option<int>(4) : opt::none), "map with a member function through a pointer");
        { auto r = o.map(&B::ref); MC_CHECK((same<decltype(r), opt::option<int&>>) && (!s || &*r == &target->d), "map with a member function through a pointer"); }
        MC_CHECK(o.has_value_and(&B::get) == bool(s) && o.map_or(7, &B::get) == (s ? 4 : 7) && o.filter(&B::d).has_value() == bool(s), "member pointers through a pointer");
    }
}
int main() {
    mc::init();
#if PART == 0
    kinds<k_int, k_bool, k_l0>::each([](auto k) { part0(k); });
#elif PART == 1
    kinds<k_str, k_opt, k_l1>::each([](auto k) { part0(k); });
#elif PART == 2
    kinds<k_ptr, k_enum, k_sv>::each([](auto k) { part0(k); });
#elif PART == 3
    kinds<k_opti, k_po, k_up>::each([](auto k) { part0(k); });
#elif PART == 4
    kinds<k_dbl, k_vec, k_pair>::each([](auto k) { part0(k); });
#elif PART == 5
    kinds<k_tup, k_arr, k_agg>::each([](auto k) { part0(k); });
#elif PART == 6
    kinds<k_mo, k_im>::each([](auto k) { part0(k); });
#else
    callables("class", [](int s) { return s ? opt::option<B>(B{}) : opt::option<B>(); });
    callables("derived class", [](int s) { return s ? opt::option<Dv>(Dv{}) : opt::option<Dv>(); });
    { static B b; through_pointer("raw pointer", &b, &b); through_pointer("reference_wrapper", std::ref(b), &b); auto sp = std::make_shared<B>(); through_pointer("shared_ptr", sp, sp.get()); static Dv d; through_pointer("derived pointer", &d, &d); }
#endif
    return mc::finish();
}
