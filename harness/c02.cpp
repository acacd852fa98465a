// C02: every value an option ever holds is constructed and destroyed exactly once, in every operation sequence.
#include "tracked.hpp"
template<class... As> void go(tt::list<As...>, int f, int c) { seq::explore_all<As...>(f, c); }
int main() {
    mc::init();
    go(tt::GROUP{}, std::atoi(std::getenv("MC_FULL")), std::atoi(std::getenv("MC_CORE")));
    return mc::finish();
}
