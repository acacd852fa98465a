// C07: copy/move construction and assignment for every combination of special members x traits x engagement.
// PART selects a slice of the 1600 payload classes.
#include "special.hpp"
using namespace fn;
template<int CC, int MC, int CA, int MA, int DT, int TR> void run() {
    using X = sp::P<CC, MC, CA, MA, DT, TR>; using O = opt::option<X>;
    constexpr bool can_cc = CC != 0, can_mc = MC == 4 ? can_cc : MC != 0;
    constexpr bool can_ca = can_cc && CA != 0, can_ma = can_mc && (MA == 4 ? CA != 0 : MA != 0);
    mc::set_ctx(sp::name<CC, MC, CA, MA, DT, TR>());
    auto put = [](O& o, int s) { if (s >= 0) o.emplace(s); };
    auto is = [](const O& o, int s) { return s < 0 ? !o.has_value() : o.has_value() && o->v == s; };
    using sp::lg;
    // copy / move construction
    for (int s = -1; s < 2; ++s) for (int from = 0; from < 4; ++from) {
        ++mc::stats.states; mc::clear(); mc::push("construct from", from); mc::push("state", s);
        O a; put(a, s); const bool moving = from == 2;
        auto after = [&](O& n) {
            const sp::log_t l = lg; ++mc::stats.transitions; ++mc::stats.traces;
            MC_CHECK(is(n, s), "constructed option has the source's state");
            const bool by_move = moving && MC != 4;
            MC_CHECK(l.ca == 0 && l.ma == 0, "construction assigns nothing");
            MC_CHECK(l.cc == (s >= 0 && !by_move && CC >= 2) && l.mc == (s >= 0 && by_move && MC >= 2), "exactly the intended constructor runs");
            MC_CHECK(is(a, s < 0 ? -1 : by_move && MC >= 2 ? sp::GONE : s), "source after construction");
        };
        lg = {};
        if (moving) { if constexpr (can_mc) { O n(std::move(a)); after(n); } }
        else if constexpr (can_cc) {
            if (from == 0) { O n(a); after(n); } else if (from == 1) { O n(static_cast<const O&>(a)); after(n); } else if constexpr (MC != 0) { O n = static_cast<const O&&>(a); after(n); }
        }
    }
    // copy / move assignment
    for (int d = -1; d < 2; ++d) for (int s = -1; s < 2; ++s) for (int from = 0; from < 5; ++from) {
        ++mc::stats.states; mc::clear(); mc::push("assign from", from); mc::push("target", d); mc::push("source", s);
        O a, b; put(a, d); put(b, s); const bool moving = from == 2;
        auto after = [&](bool self) {
            const sp::log_t l = lg; ++mc::stats.transitions; ++mc::stats.traces;
            const int src = self ? d : s;
            const bool both = d >= 0 && src >= 0, build = d < 0 && src >= 0, kill = d >= 0 && src < 0;
            const bool mvc = moving && MC != 4, mva = moving && MA != 4;
            MC_CHECK(is(a, src), "assigned option has the source's state");
            if (self) return;
            MC_CHECK(l.cc == (build && !mvc && CC >= 2) && l.mc == (build && mvc && MC >= 2), "assignment to an empty option constructs the payload the intended way");
            MC_CHECK(l.ca == (both && !mva && CA >= 2) && l.ma == (both && mva && MA >= 2), "assignment between engaged options assigns the payload the intended way");
            MC_CHECK(l.dt == (kill && DT == 2), "assignment destroys exactly what it empties");
            const bool gone = (build && mvc && MC >= 2) || (both && mva && MA >= 2);
            MC_CHECK(is(b, src < 0 ? -1 : gone ? sp::GONE : src), "source after assignment");
        };
        lg = {};
        if (moving) { if constexpr (can_ma) { O& r = (a = std::move(b)); MC_CHECK(&r == &a, "assignment returns the target"); after(false); } }
        else if constexpr (can_ca) {
            if (from == 0) { O& r = (a = b); MC_CHECK(&r == &a, "assignment returns the target"); after(false); }
            else if (from == 1) { a = static_cast<const O&>(b); after(false); }
            else if (from == 3) { if constexpr (can_ma || MA == 4) { a = static_cast<const O&&>(b); after(false); } }
            else { O& alias = a; a = alias; after(true); }
        }
    }
    // a payload whose move is deleted is moved by copying; the payload of an option of const is only ever copied
    if constexpr (CC != 0) {
        using OC = opt::option<const X>;
        for (int s = -1; s < 2; ++s) for (int from = 0; from < 3; ++from) {
            ++mc::stats.states; mc::clear(); mc::push("construct option of const from", from); mc::push("state", s);
            OC a; if (s >= 0) a.emplace(s);
            auto after = [&](OC& n) {
                const sp::log_t l = lg; ++mc::stats.transitions; ++mc::stats.traces;
                MC_CHECK(n.has_value() == (s >= 0) && a.has_value() == (s >= 0) && (s < 0 || (n->v == s && a->v == s)), "copying or moving an option of const copies its payload");
                MC_CHECK(l.cc == (s >= 0 && CC >= 2) && l.mc == 0 && l.ca == 0 && l.ma == 0, "exactly the copy constructor of a const payload runs");
            };
            lg = {};
            if (from == 0) { OC n(static_cast<const OC&>(a)); after(n); }
            else if constexpr (std::is_move_constructible_v<OC>) { if (from == 1) { OC n(std::move(a)); after(n); } else { OC n = static_cast<const OC&&>(a); after(n); } }
        }
        if constexpr (MC == 0) for (int s = -1; s < 2; ++s) {
            ++mc::stats.states; mc::clear(); mc::push("move of a payload without usable move", s);
            O a; put(a, s); lg = {}; O n(std::move(a)); const sp::log_t l = lg; ++mc::stats.transitions; ++mc::stats.traces;
            MC_CHECK(is(n, s) && is(a, s) && l.cc == (s >= 0 && CC >= 2), "moved by copying");
        }
        if constexpr (can_ca && !can_ma) for (int d = -1; d < 2; ++d) for (int s = -1; s < 2; ++s) {
            ++mc::stats.states; mc::clear(); mc::push("move assignment without usable move assignment", d); mc::push("source", s);
            O a, b; put(a, d); put(b, s); lg = {}; a = std::move(b); const sp::log_t l = lg; ++mc::stats.transitions; ++mc::stats.traces;
            MC_CHECK(is(a, s) && is(b, s) && l.ca == (d >= 0 && s >= 0 && CA >= 2) && l.cc == (d < 0 && s >= 0 && CC >= 2), "assigned by copying");
        }
    }
    if (mc::stats.states % 1999 < 60) mc::sample_trace();
}
template<int CODE> void one() { using D = sp::dec<CODE>; run<D::CC, D::MC, D::CA, D::MA, D::DT, D::TR>(); }
template<int BASE, int... I> void slice(std::integer_sequence<int, I...>) { (one<BASE + I>(), ...); }
#ifndef PARTS
#define PARTS 8
#endif
int main() {
    mc::init();
    constexpr int n = sp::COUNT / PARTS;
    slice<n * PART>(std::make_integer_sequence<int, n>{});
    return mc::finish();
}
