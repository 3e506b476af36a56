// The same checks as in h_courtier.cpp, with the library's templates compiled as in a release build
#undef DEBUG
#define H_RELEASE 1
#include "h_courtier.cpp"
