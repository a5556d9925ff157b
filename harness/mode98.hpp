// Forced in front of a harness by the builds that show the library the macros of
// another environment: what it has for C++98 (other move, countof, alignment),
// what it does where the compiler is not gcc (counting of bits), and the tree
// routines compiled as ordinary functions.
#include <new>
#include <limits.h>
#include <stddef.h>
#define RBTREE_INLINEABLE
#define RBTREE_INCLUDE_INLINEABLE 1
#pragma push_macro("__cplusplus")
#pragma push_macro("__GNUC__")
#undef __cplusplus
#define __cplusplus 199711L
#include "ttl/types.hpp"
#undef __GNUC__
#include "ttl/bitset.hpp"
#pragma pop_macro("__GNUC__")
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
#pragma pop_macro("__cplusplus")
#define MON_AS98 1
