// The second translation unit of c21i.cpp.
#define TU 2
#include "c21i.cpp"
