// C20: opt::io. Every engagement x payload kind x constness x stream kind x format state x stream failure; reading over all short texts.
// Oracle: the same stream, in the same state, given the value (or the alternative, or nothing) itself.
#include "mc.hpp"
#include <opt/option.hpp>
#include <algorithm>
#include <complex>
#include <iomanip>
#include <ostream>
#include <sstream>
#include <streambuf>
#include <string>
#include <string_view>
#include <utility>

namespace {
void did(int n = 1) { mc::stats.transitions += unsigned(n); ++mc::stats.states; ++mc::stats.traces; }
// ---- a stream that is only a template parameter: it records what it was given
struct logger {
    std::string log; const void* last = nullptr; int calls = 0;
    logger() = default; logger(const logger&) = delete;
};
struct thing { int v; };
struct only_mutable { int v; };
struct base { virtual ~base() = default; };
struct derived : base {};
#define LOGS(T, name) \
    logger& operator<<(logger& s, T x) { s.log += "<<" name ";"; s.last = std::addressof(x); ++s.calls; return s; }
LOGS(const thing&, "const thing") LOGS(thing&, "thing") LOGS(only_mutable&, "mutable") LOGS(const int&, "const int") LOGS(int&, "int") LOGS(const std::string&, "const string") LOGS(std::string&, "string") LOGS(base&, "base") LOGS(const base&, "const base")
logger& operator<<(logger& s, thing&&) = delete;
template<std::size_t N> logger& operator<<(logger& s, const char (&x)[N]) { s.log += "<<literal;"; s.last = &x; ++s.calls; return s; }
#define READS(T, name) \
    logger& operator>>(logger& s, T x) { s.log += ">>" name ";"; s.last = std::addressof(x); ++s.calls; return s; }
READS(thing&, "thing") READS(const thing&, "const thing") READS(int&, "int") READS(std::string&, "string") READS(base&, "base") READS(only_mutable&, "mutable") READS(const int&, "const int")

template<class O, class Alt> void recording(const char* name, O full, Alt alt, const char* val, const char* cval, const char* none, const char* cnone) {
    mc::set_ctx("recording stream", name);
    using T = typename O::value_type;
    for (bool e : {true, false}) for (bool c : {false, true}) {
        mc::clear(); mc::push(e ? "engaged" : "empty"); mc::push(c ? "const option" : "option");
        O o(full); if (!e) o.reset();
        const void* target = e ? static_cast<const void*>(std::addressof(o.get())) : nullptr;
        auto one = [&](auto& oo) {
            { logger s; logger& r = s << opt::io(oo); MC_CHECK(&r == &s, "does not return the stream"); MC_CHECK(s.calls == int(e), e ? "value not written once" : "something is written for an empty option"); if (e) MC_CHECK(s.log == std::string("<<") + (c && !std::is_reference_v<T> ? cval : val) + ";" && s.last == target, "not the value itself is written"); MC_CHECK(oo.has_value() == e, "engagement changed"); did(); }
        };
        if (c) one(std::as_const(o)); else one(o);
        auto two = [&](auto& oo, auto& aa) {
            constexpr bool ca = std::is_const_v<std::remove_reference_t<decltype(aa)>>;
            { logger s; logger& r = s << opt::io(oo, aa); MC_CHECK(&r == &s, "does not return the stream"); MC_CHECK(s.calls == 1, "not exactly one thing is written"); MC_CHECK(s.log == std::string("<<") + (e ? c && !std::is_reference_v<T> ? cval : val : ca ? cnone : none) + ";" && s.last == (e ? target : static_cast<const void*>(&aa)), "neither the value nor the alternative itself is written"); MC_CHECK(oo.has_value() == e, "engagement changed"); did(); }
            if constexpr (!ca) { logger s; logger& r = s >> opt::io(oo, aa); MC_CHECK(&r == &s, "does not return the stream"); MC_CHECK(s.calls == 1 && s.log == std::string(">>") + (e ? val : none) + ";" && s.last == (e ? target : static_cast<const void*>(&aa)), "not the value or the alternative itself is read"); MC_CHECK(oo.has_value() == e, "engagement changed"); did(); }
        };
        if (c) { two(std::as_const(o), std::as_const(alt)); } else two(o, alt);
        // the helper refers to the option: what it writes follows the option
        { auto h = opt::io(o); logger s; s << h; O before = o; if (e) o.reset(); else o = full; s << h; MC_CHECK(s.calls == 1, "the helper does not refer to the option"); auto h2 = opt::io(std::as_const(o)); logger t; t << h2 << h2; MC_CHECK(t.calls == (e ? 0 : 2), "a helper used twice"); did(3); }
    }
    MC_CHECK(noexcept(opt::io(full)) && noexcept(opt::io(std::as_const(full))) && noexcept(opt::io(full, alt)) && noexcept(opt::io(std::as_const(full), std::as_const(alt))), "io may throw");
}

// ---- standard streams: the whole state of the stream against direct insertion
template<class C> struct limited : std::basic_streambuf<C> { // accepts only n characters
    std::basic_string<C> s; std::size_t n; explicit limited(std::size_t k) : n(k) {}
    typename std::basic_streambuf<C>::int_type overflow(typename std::basic_streambuf<C>::int_type c) override { using tr = std::char_traits<C>; if (s.size() >= n || tr::eq_int_type(c, tr::eof())) return tr::eof(); s.push_back(tr::to_char_type(c)); return c; }
};
template<class C> struct outcome { std::basic_string<C> text; int state; long long width, precision; unsigned flags; bool threw; C fill; bool operator==(const outcome& o) const { return text == o.text && state == o.state && width == o.width && precision == o.precision && flags == o.flags && threw == o.threw && fill == o.fill; } };
const int n_formats = 10;
template<class C> void format(std::basic_ios<C>& s, int f) {
    switch (f) {
    case 1: s.width(6); break; case 2: s.width(9); s.fill(C('*')); break; case 3: s.setf(std::ios::hex, std::ios::basefield); s.setf(std::ios::showbase); break; case 4: s.setf(std::ios::boolalpha); break;
    case 5: s.precision(3); s.setf(std::ios::fixed, std::ios::floatfield); break; case 6: s.width(8); s.setf(std::ios::left, std::ios::adjustfield); break; case 7: s.setf(std::ios::showpos); s.width(7); s.setf(std::ios::internal, std::ios::adjustfield); break;
    case 8: s.setf(std::ios::scientific, std::ios::floatfield); s.setf(std::ios::uppercase); break; case 9: s.setf(std::ios::unitbuf); s.setf(std::ios::oct, std::ios::basefield); break; default: break;
    }
}
// failure: 0 none, 1 failbit set, 2 badbit set, 3 eofbit set, 4.. buffer of (failure-4) characters; throws: exceptions enabled
template<class C, class F> outcome<C> run(int fmt, int failure, bool throws, F&& f) {
    limited<C> buf(failure >= 4 ? std::size_t(failure - 4) : std::size_t(-1)); std::basic_ostream<C> s(&buf); format<C>(s, fmt);
    if (failure == 1) s.setstate(std::ios::failbit); if (failure == 2) s.setstate(std::ios::badbit); if (failure == 3) s.setstate(std::ios::eofbit);
    bool threw = false;
    try { if (throws) s.exceptions(failure >= 1 && failure <= 3 ? std::ios::goodbit : std::ios::failbit | std::ios::badbit); f(s); } catch (const std::ios_base::failure&) { threw = true; }
    return {buf.s, int(s.rdstate()), (long long)s.width(), (long long)s.precision(), unsigned(s.flags()), threw, s.fill()};
}
template<class C, class T, class A> void writes(const char* name, const opt::option<T>& full, const A& alt) {
    mc::set_ctx("standard stream", name);
    using O = opt::option<T>;
    for (int e = 0; e < 2; ++e) for (int f = 0; f < n_formats; ++f) for (int failure = 0; failure < 12; ++failure) for (int t = 0; t < 2; ++t) {
        mc::clear(); mc::push(e ? "engaged" : "empty"); mc::push("format", f); mc::push("failure", failure); mc::push(t ? "exceptions on" : "exceptions off");
        O o(full); if (!e) o.reset();
        auto nothing = run<C>(f, failure, t, [&](std::basic_ostream<C>&) {});
        auto value = run<C>(f, failure, t, [&](std::basic_ostream<C>& s) { s << *full; });
        auto other = run<C>(f, failure, t, [&](std::basic_ostream<C>& s) { s << alt; });
        auto check = [&](const char* what, const outcome<C>& got, const outcome<C>& want) { mc::scope sc(what); did(); MC_CHECK(got == want, "the stream differs from writing the value, the alternative or nothing"); MC_CHECK(o.has_value() == bool(e), "engagement changed"); };
        check("io(o)", run<C>(f, failure, t, [&](auto& s) { auto& r = s << opt::io(o); MC_CHECK(&r == &s, "does not return the stream"); }), e ? value : nothing);
        check("io(const o)", run<C>(f, failure, t, [&](auto& s) { s << opt::io(std::as_const(o)); }), e ? value : nothing);
        check("io(rvalue)", run<C>(f, failure, t, [&](auto& s) { s << opt::io(O(o)); }), e ? value : nothing);
        check("io(o, alt)", run<C>(f, failure, t, [&](auto& s) { auto& r = s << opt::io(o, alt); MC_CHECK(&r == &s, "does not return the stream"); }), e ? value : other);
        check("io(const o, alt)", run<C>(f, failure, t, [&](auto& s) { s << opt::io(std::as_const(o), alt); }), e ? value : other);
        check("io(rvalue, alt)", run<C>(f, failure, t, [&](auto& s) { s << opt::io(O(o), alt); }), e ? value : other);
        auto twice = run<C>(f, failure, t, [&](auto& s) { if (e) s << *full; s << C('|'); if (e) s << *full; else s << alt; s << C('|'); });
        check("chained", run<C>(f, failure, t, [&](auto& s) { s << opt::io(o) << C('|') << opt::io(o, alt) << C('|'); }), twice);
    }
    mc::sample(std::string(name) + ": 10 formats, 12 kinds of failure, with and without exceptions, 7 ways to insert");
}
struct user { int a, b; };
template<class C> std::basic_ostream<C>& operator<<(std::basic_ostream<C>& s, const user& u) { return s << C('(') << u.a << C(',') << u.b << C(')'); }
template<class C> std::basic_istream<C>& operator>>(std::basic_istream<C>& s, user& u) { C c; int a, b; if (s >> c && c == C('(') && s >> a >> c >> b) { u.a = a; u.b = b; } else s.setstate(std::ios::failbit); return s; }
struct thrower { int v; };
std::ostream& operator<<(std::ostream& s, const thrower& t) { s << t.v; if (t.v < 0) throw t.v; return s; }
std::istream& operator>>(std::istream& s, thrower& t) { s >> t.v; if (t.v < 0) throw t.v; return s; }
struct loud { int v; }; // text and a change of the format
std::ostream& operator<<(std::ostream& s, const loud& t) { return s << std::setw(4) << t.v << std::hex << std::setfill('#'); }

// ---- reading: every text up to a length over an alphabet
template<class T, class A> void reads(const char* name, const char* alphabet, int maxlen, T start, A alt0) {
    mc::set_ctx("reading", name);
    std::vector<std::string> texts{""}; const std::string al = alphabet;
    for (std::size_t i = 0; i < texts.size(); ++i) if (int(texts[i].size()) < maxlen) for (char c : al) texts.push_back(texts[i] + c);
    struct res { int state; std::string rest; bool threw; bool operator==(const res& o) const { return state == o.state && rest == o.rest && threw == o.threw; } };
    auto run = [&](const std::string& text, int setup, auto f) {
        std::istringstream s(text); if (setup == 1) s.unsetf(std::ios::skipws); if (setup == 2) s.setf(std::ios::hex, std::ios::basefield); if (setup == 3) s.setstate(std::ios::failbit); if (setup == 4) s.exceptions(std::ios::failbit | std::ios::badbit);
        bool threw = false; try { f(s); } catch (const std::ios_base::failure&) { threw = true; } catch (int) { threw = true; }
        res r{int(s.rdstate()), "", threw}; s.exceptions(std::ios::goodbit); s.clear(); std::getline(s, r.rest, '\0'); return r;
    };
    for (auto& text : texts) for (int setup = 0; setup < 5; ++setup) for (bool e : {true, false}) {
        mc::clear(); mc::push(e ? "engaged" : "empty"); mc::push("setup", setup); mc::push(text.c_str());
        T v = start; A a = alt0;
        const res want = run(text, setup, [&](std::istream& s) { if (e) s >> v; else s >> a; });
        opt::option<T> o(start); if (!e) o.reset(); A alt = alt0;
        const res got = run(text, setup, [&](std::istream& s) { std::istream& r = s >> opt::io(o, alt); MC_CHECK(&r == &s, "does not return the stream"); });
        did(); MC_CHECK(got == want, "the stream differs from reading into the value or the alternative");
        MC_CHECK(o.has_value() == e, "engagement changed"); if (e && o.has_value()) MC_CHECK(*o == v, "value read differs"); MC_CHECK(alt == a, "the alternative differs");
        // through an option of a reference, also a const one
        T target = start; opt::option<T&> ro; if (e) ro = target; A alt2 = alt0;
        const res gr = run(text, setup, [&](std::istream& s) { s >> opt::io(ro, alt2); }); MC_CHECK(gr == want && ro.has_value() == e && target == (e ? v : start) && alt2 == a, "reading through an option of a reference"); did();
    }
    mc::sample(std::string(name) + ": " + std::to_string(texts.size()) + " texts, 5 stream states, engaged and empty");
}
bool operator==(const user& x, const user& y) { return x.a == y.a && x.b == y.b; }
bool operator==(const thrower& x, const thrower& y) { return x.v == y.v; }
int the_int = 42; std::string the_string = "target";
}
int main() {
    mc::init();
#if PART == 0
    recording("thing", opt::option<thing>(thing{1}), thing{2}, "thing", "const thing", "thing", "const thing");
    recording("thing, other alternative", opt::option<thing>(thing{1}), 7, "thing", "const thing", "int", "const int");
    recording("int", opt::option<int>(3), std::string("none"), "int", "const int", "string", "const string");
    recording("string", opt::option<std::string>("abc"), 5, "string", "const string", "int", "const int");
    static thing t{5}; recording("thing&", opt::option<thing&>(t), thing{2}, "thing", "thing", "thing", "const thing");
    static int i = 5; recording("int&", opt::option<int&>(i), 2, "int", "int", "int", "const int");
    static derived d; recording("base&", opt::option<base&>(d), 2, "base", "base", "int", "const int");
    static only_mutable m{3}; recording("only_mutable&", opt::option<only_mutable&>(m), 2, "mutable", "mutable", "int", "const int");
    { mc::set_ctx("recording stream", "only_mutable, literals, rvalues"); opt::option<only_mutable> o(only_mutable{1}); logger s; s << opt::io(o); MC_CHECK(s.log == "<<mutable;", "a non-const value is given as such"); opt::option<int> e; logger u; u << opt::io(e, "empty"); MC_CHECK(u.log == "<<literal;", "a string literal is given as an array"); logger w; w << opt::io(opt::option<int>(), "empty") << opt::io(opt::option<int>(3), "empty"); MC_CHECK(w.log == "<<literal;<<const int;", "an rvalue option"); logger x; const char lit[] = "xyz"; x << opt::io(e, lit); MC_CHECK(x.last == &lit, "the alternative itself"); did(4); }
    mc::sample("recording stream: 8 payload and alternative kinds, what is written is the object itself");
#elif PART == 1
    writes<char, int>("int", opt::option<int>(1234), "empty"); writes<char, int>("int, int alternative", opt::option<int>(-5), 77); writes<char, bool>("bool", opt::option<bool>(true), 3.25); writes<char, char>("char", opt::option<char>('c'), 'n'); writes<char, double>("double", opt::option<double>(2.5), std::string("none"));
    writes<char, float>("float", opt::option<float>(-0.125f), 1L); writes<char, std::string>("string", opt::option<std::string>("text of it"), ""); writes<char, std::string_view>("string_view", opt::option<std::string_view>("view"), std::string_view("no")); writes<char, const char*>("const char*", opt::option<const char*>("ptr"), false); writes<char, unsigned char>("unsigned char", opt::option<unsigned char>((unsigned char)('u')), (signed char)('s'));
    writes<char, user>("user-defined", opt::option<user>(user{1, -2}), user{3, 4}); writes<char, loud>("changes the format", opt::option<loud>(loud{5}), loud{6}); writes<char, void*>("void*", opt::option<void*>(static_cast<void*>(&the_int)), "null"); writes<char, std::complex<double>>("complex", opt::option<std::complex<double>>(std::in_place, 1., 2.), 0);
    writes<char, int&>("int&", opt::option<int&>(the_int), "empty"); writes<char, const std::string&>("const string&", opt::option<const std::string&>(the_string), 'x');
    writes<wchar_t, int>("int, wide", opt::option<int>(1234), L"empty"); writes<wchar_t, std::wstring>("wstring", opt::option<std::wstring>(L"text"), 5); writes<wchar_t, user>("user-defined, wide", opt::option<user>(user{1, -2}), L'x');
    mc::set_ctx("derived stream types"); mc::clear();
    { opt::option<int> o(5); opt::option<int> e; std::ostringstream s; auto& r = s << opt::io(o) << opt::io(e) << opt::io(e, "none"); MC_CHECK((std::is_same_v<decltype(r), std::ostringstream&> && &r == &s && r.str() == "5none"), "string stream"); std::stringstream ss("7 8"); int alt = 0; auto& q = ss >> opt::io(o, alt) >> opt::io(e, alt); MC_CHECK((std::is_same_v<decltype(q), std::stringstream&> && *o == 7 && alt == 8), "string stream read"); did(6); }
    mc::set_ctx("operators that throw");
    for (int v : {5, -5}) for (int a : {6, -6}) for (bool e : {true, false}) {
        mc::clear(); mc::push("value", v); mc::push("alternative", a); mc::push(e ? "engaged" : "empty"); opt::option<thrower> o(thrower{v}); if (!e) o.reset(); std::ostringstream s; int caught = 0; try { s << opt::io(o, thrower{a}); } catch (int x) { caught = x; } did();
        const int want = e ? v : a; MC_CHECK(caught == (want < 0 ? want : 0) && s.str() == std::to_string(want) && o.has_value() == e && (!e || o->v == v), "an exception of the operator");
    }
#else
    const int n = mc::thorough() ? 5 : 4;
    reads<int, int>("int", "17- x", n, 100, 200); reads<int, std::string>("int, string alternative", "1x -", n, 100, "alt"); reads<char, int>("char", "a 1", n, 'z', 5); reads<std::string, std::string>("string", "ab \n", n, "start", "alt"); reads<double, int>("double", "1.e-", n, 0.5, 3);
    reads<bool, bool>("bool", "01 x", n, true, false); reads<unsigned char, unsigned char>("unsigned char", "a 1", n, 'u', 'v'); reads<user, int>("user-defined", "(1,)", n + 2, user{8, 9}, 4); reads<thrower, thrower>("an operator that throws", "1- ", n, thrower{3}, thrower{4}); reads<float, float>("float", "1n.-", n, 2.f, 3.f); reads<long, char>("long", "9 x", n, -1L, 'q');
#endif
    return mc::finish();
}
