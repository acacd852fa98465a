// C01: every sequence of operations agrees with the two-state reference model, for every storage strategy.
#include "types.hpp"
template<class... As> void go(ty::list<As...>, int f, int c) { seq::explore_all<As...>(f, c); }
int main() {
    mc::init();
    const int full = std::getenv("MC_FULL") ? std::atoi(std::getenv("MC_FULL")) : 2;
    const int core = std::getenv("MC_CORE") ? std::atoi(std::getenv("MC_CORE")) : 3;
    go(ty::GROUP{}, full, core);
    return mc::finish();
}
