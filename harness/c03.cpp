// C03: every throw point of every operation sequence throws once (and in pairs); the options stay consistent and usable.
#define TRK_THROWING true
#include "tracked.hpp"
template<class... As> void go(tt::list<As...>, int f, int c, bool p) { trk::alloc_faults = true; seq::fault_all<As...>(f, c, p); }
int main() {
    mc::init();
    go(tt::GROUP{}, std::atoi(std::getenv("MC_FULL")), std::atoi(std::getenv("MC_CORE")), std::getenv("MC_PAIRS"));
    return mc::finish();
}
