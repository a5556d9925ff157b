// Uses the monitors without the code under test: tells a broken toolchain from a
// library that no longer compiles.
#include "core_impl.hpp"
using namespace mon;
static void the_case(Rng &r, uint64_t)
{
   op("control", " %u", r.below(10));
   int *p = lib([]{ return new int(1); });
   lib([&]{ delete p; return 0; });
   note_state(1);
}
int main(int argc, char **argv) { return run(argc, argv, "control", the_case); }
