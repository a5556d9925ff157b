// What the units of a many-unit program and its driver know of each other. C++98, no headers.
#ifndef UNIT_API_HPP
#define UNIT_API_HPP
enum UnitKind
{
   U_VECTOR, U_FIXED_VECTOR, U_LIST, U_FORWARD_LIST, U_BACKWARD_LIST, U_LAZY_QUEUE, U_MAP, U_SET, U_VECTOR_MAP,
   U_SORTED_VECTOR_MAP, U_RBTREE, U_BITSET, U_ARRAY, U_ALGORITHM, U_VOCAB, U_TYPES, U_KINDS
};
enum UnitOp
{
   O_SIZEOF, O_NEW, O_NEW_RANGE, O_NEW_COPY, O_DELETE, O_DUMP, O_DUMP_BACK, O_ASSIGN, O_SWAP, O_EQ, O_CLEAR, O_STATE,
   O_PUSH_BACK, O_PUSH_FRONT, O_POP_BACK, O_POP_FRONT, O_INSERT, O_INSERT_N, O_ERASE, O_RESIZE, O_ASSIGN_N, O_ASSIGN_RANGE,
   O_REVERSE, O_REMOVE, O_UNIQUE, O_MERGE, O_SPLICE, O_ROLL,
   O_PUT, O_DROP, O_FIND, O_INDEX, O_LOWER, O_UPPER, O_COUNT,
   O_SET, O_FLIP, O_LEFT, O_RIGHT, O_AND, O_OR, O_XOR, O_FILL, O_RUN, O_OPS
};
struct UnitCall
{
   int kind, op;
   void *obj, *other;
   const int *a;
   int na;
   int *out; // room for 256
};
typedef int (*UnitFn)(UnitCall *); // number of results, -1: not something this unit does
struct UnitInfo { UnitFn fn; const char *what; };
struct UnitHooks
{
   void (*born)(const void *), (*gone)(const void *), (*used)(const void *);
   void *(*get)(unsigned long, int); // storage, for units without a C++ library
   void (*put)(void *, int);
};
extern "C"
{
   extern UnitInfo unit_table[];
   extern const int unit_count;
   extern UnitHooks unit_hooks;
}
// the element type of all units
struct Item
{
   int k;
   const Item *self;
   Item(): k(0), self(this) { unit_hooks.born(this); }
   Item(int x): k(x), self(this) { unit_hooks.born(this); }
   Item(const Item &o): k(o.k), self(this) { o.used(); unit_hooks.born(this); }
   Item &operator=(const Item &o) { o.used(); used(); k = o.k; return *this; }
   ~Item() { used(); unit_hooks.gone(this); self = 0; k = -77; }
   void used() const { unit_hooks.used(self == this ? this : 0); }
   bool operator==(const Item &o) const { used(); o.used(); return k == o.k; }
   bool operator!=(const Item &o) const { return !(*this == o); }
   bool operator<(const Item &o) const { used(); o.used(); return k < o.k; }
};
#endif
