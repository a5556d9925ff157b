// One unit of a many-unit program: works on whatever of the library was included before it.
// C++98, includes nothing of the standard library.
#include "unit_api.hpp"

// some units instantiate the classes as a whole, and some rely on that
#if defined(U_INST) && U_INST == 1
#define INST(...) template class __VA_ARGS__;
#elif defined(U_INST) && U_INST == 2
#define INST(...) extern template class __VA_ARGS__;
#else
#define INST(...)
#endif
#ifdef HAS_vector
INST(ttl::vector<Item>)
#endif
#ifdef HAS_fixed_vector
INST(ttl::fixed_vector<Item, 12>)
#endif
#ifdef HAS_list
INST(ttl::list<Item>)
#endif
#ifdef HAS_forward_list
INST(ttl::forward_list<Item>)
#endif
#ifdef HAS_backward_list
INST(ttl::backward_list<Item>)
#endif
#ifdef HAS_lazy_queue
INST(ttl::lazy_queue<Item>)
#endif
#ifdef HAS_map
INST(ttl::map<int, Item>)
#endif
#ifdef HAS_set
INST(ttl::set<int>)
#endif
#ifdef HAS_vector_map
INST(ttl::vector_map<int, Item>)
#endif
#ifdef HAS_sorted_vector_map
INST(ttl::sorted_vector_map<int, Item>)
#endif
#ifdef HAS_bitset
INST(ttl::bitset<70>)
#endif
#ifdef HAS_array
INST(ttl::array<Item, 7>)
#endif

namespace
{
   struct Few // at most a dozen elements
   {
      Item i[12];
      int n;
      Few(const int *a, int na): n(na < 12 ? na : 12)
      {
         for (int x = 0; x < n; ++x)
            i[x] = Item(a[x]);
      }
      const Item *begin() const { return i; }
      const Item *end() const { return i + n; }
   };
   inline int val(const Item &i) { return i.k; }
   inline int val(int i) { return i; }
   struct Odd { bool operator()(const Item &i) const { return i.k & 1; } bool operator()(int i) const { return i & 1; } };
   struct Twice { int operator()(int i) const { return i * 2; } };
   struct Plus { int operator()(int a, int b) const { return a + b; } };
   struct More { bool operator()(int a, int b) const { return a > b; } };
   struct Near { bool operator()(int a, int b) const { return a == b || a == b + 1; } };
   struct Count { int *n; void operator()(int i) const { *n += i; } };
   struct Next { int *n; int operator()() const { return (*n)++; } };

   template<class C> inline C &ref(void *p) { return *static_cast<C *>(p); }
   // operations that have no object yet
   inline bool objectless(const UnitCall *u) { return !u->obj; }
   template<class It> inline It step(It i, int n)
   {
      while (n-- > 0)
         ++i;
      return i;
   }
   template<class C> int dump(const C &c, int *out)
   {
      int n = 0;
      for (typename C::const_iterator i = c.begin(), e = c.end(); i != e && n < 250; ++i)
         out[n++] = val(*i);
      return n;
   }
   template<class C> int dump_back(const C &c, int *out)
   {
      int n = 0;
      for (typename C::const_iterator i = c.end(), e = c.begin(); i != e && n < 250;)
      {
         --i;
         out[n++] = val(*i);
      }
      return n;
   }
   template<class C> int dump_pairs(const C &c, int *out)
   {
      int n = 0;
      for (typename C::const_iterator i = c.begin(), e = c.end(); i != e && n < 250; ++i)
      {
         out[n++] = i->first;
         out[n++] = val((*i).second);
      }
      return n;
   }
   // what all containers can do
   template<class C> int common(UnitCall *u)
   {
      switch (u->op)
      {
      case O_SIZEOF: u->out[0] = (int)sizeof(C); return 1;
      case O_NEW: u->obj = new C; return 0;
      case O_NEW_COPY: u->obj = new C(ref<const C>(u->other)); return 0;
      case O_DELETE: delete static_cast<C *>(u->obj); return 0;
      case O_CLEAR: ref<C>(u->obj).clear(); return 0;
      }
      return -1;
   }
   template<class C> int assign_swap_eq(UnitCall *u)
   {
      C &c = ref<C>(u->obj), &o = ref<C>(u->other);
      switch (u->op)
      {
      case O_ASSIGN: c = o; return 0;
      case O_SWAP: c.swap(o); return 0;
      case O_EQ: u->out[0] = c == o; return 1;
      }
      return -1;
   }
   template<class C> int array_like(UnitCall *u)
   {
      if (u->op == O_NEW_RANGE)
      {
         Few f(u->a, u->na);
         u->obj = new C(f.begin(), f.end());
         return 0;
      }
      if (objectless(u))
         return common<C>(u);
      C &c = ref<C>(u->obj);
      const int *a = u->a;
      switch (u->op)
      {
      case O_DUMP: return dump(c, u->out);
      case O_DUMP_BACK: return dump_back(c, u->out);
      case O_STATE:
         u->out[0] = c.empty();
         u->out[1] = (int)c.size();
         u->out[2] = c.empty() ? 0 : val(c.front());
         u->out[3] = c.empty() ? 0 : val(c.back());
         u->out[4] = c.empty() ? 0 : val(c[c.size() / 2]);
         u->out[5] = c.capacity() >= c.size();
         return 6;
      case O_PUSH_BACK: c.push_back(Item(a[0])); return 0;
      case O_POP_BACK: c.pop_back(); return 0;
      case O_INSERT: { Few f(a + 1, u->na - 1); u->out[0] = (int)(c.insert(c.begin() + a[0], f.begin(), f.end()) - c.begin()); return 1; }
      case O_INSERT_N: u->out[0] = (int)(c.insert(c.begin() + a[0], (unsigned)a[1], Item(a[2])) - c.begin()); return 1;
      case O_ERASE: u->out[0] = (int)(c.erase(c.begin() + a[0], c.begin() + a[0] + a[1]) - c.begin()); return 1;
      case O_RESIZE:
         if (a[1])
            c.resize((unsigned)a[0], Item(a[1]));
         else
            c.resize((unsigned)a[0]);
         return 0;
      case O_ASSIGN_N: c.assign((unsigned)a[0], Item(a[1])); return 0;
      case O_ASSIGN_RANGE: { Few f(a, u->na); c.assign(f.begin(), f.end()); return 0; }
      case O_ASSIGN: case O_SWAP: case O_EQ: return assign_swap_eq<C>(u);
      }
      return common<C>(u);
   }
   template<class C> int slist_like(UnitCall *u)
   {
      if (objectless(u))
         return common<C>(u);
      C &c = ref<C>(u->obj);
      const int *a = u->a;
      switch (u->op)
      {
      case O_DUMP: return dump(c, u->out);
      case O_STATE:
         u->out[0] = c.empty();
         u->out[1] = c.empty() ? 0 : val(c.front());
         return 2;
      case O_PUSH_FRONT: c.push_front(Item(a[0])); return 0;
      case O_POP_FRONT: c.pop_front(); return 0;
      case O_INSERT: { Few f(a + 1, u->na - 1); c.insert_after(step(c.before_begin(), a[0]), f.begin(), f.end()); return 0; }
      case O_INSERT_N: c.insert_after(step(c.before_begin(), a[0]), (unsigned)a[1], Item(a[2])); return 0;
      case O_ERASE:
      {
         typename C::iterator b = step(c.before_begin(), a[0]), e = b;
         c.erase_after(b, step(e, a[1] + 1));
         return 0;
      }
      case O_ASSIGN: c = ref<C>(u->other); return 0;
      case O_SWAP: c.swap(ref<C>(u->other)); return 0;
      }
      return common<C>(u);
   }
   template<class C> int tree_like(UnitCall *u)
   {
      if (objectless(u))
         return common<C>(u);
      C &c = ref<C>(u->obj);
      const C &cc = c;
      const int k = u->na ? u->a[0] : 0;
      switch (u->op)
      {
      case O_STATE: u->out[0] = cc.empty(); return 1;
      case O_DROP: u->out[0] = (int)c.erase(k); return 1;
      case O_COUNT: u->out[0] = (int)cc.count(k); return 1;
      case O_FIND: u->out[0] = cc.find(k) != cc.end(); return 1;
      case O_LOWER: { int n = 0; for (typename C::const_iterator i = cc.lower_bound(k), e = cc.end(); i != e; ++i) ++n; u->out[0] = n; return 1; }
      case O_UPPER: { int n = 0; for (typename C::iterator i = c.upper_bound(k), e = c.end(); i != e; ++i) ++n; u->out[0] = n; return 1; }
      case O_ASSIGN: c = ref<C>(u->other); return 0;
      case O_EQ: u->out[0] = c == ref<C>(u->other); return 1;
      }
      return common<C>(u);
   }
}

#ifdef HAS_vector
namespace { typedef ttl::vector<Item> Vector; }
#define CASE_vector case U_VECTOR: return array_like<Vector>(u);
#else
#define CASE_vector
#endif
#ifdef HAS_fixed_vector
namespace { typedef ttl::fixed_vector<Item, 12> FixedVector; }
#define CASE_fixed_vector case U_FIXED_VECTOR: return array_like<FixedVector>(u);
#else
#define CASE_fixed_vector
#endif
#ifdef HAS_list
namespace
{
   typedef ttl::list<Item> List;
   int list_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_NEW_RANGE: { Few f(a, u->na); u->obj = new List(f.begin(), f.end()); return 0; }
      case O_DUMP: return dump(ref<List>(u->obj), u->out);
      case O_DUMP_BACK: return dump_back(ref<List>(u->obj), u->out);
      case O_ASSIGN: case O_SWAP: case O_EQ: return assign_swap_eq<List>(u);
      case O_STATE:
      {
         List &c = ref<List>(u->obj);
         u->out[0] = c.empty();
         u->out[1] = (int)c.size();
         u->out[2] = c.empty() ? 0 : val(c.front());
         u->out[3] = c.empty() ? 0 : val(c.back());
         return 4;
      }
      case O_PUSH_BACK: ref<List>(u->obj).push_back(Item(a[0])); return 0;
      case O_PUSH_FRONT: ref<List>(u->obj).push_front(Item(a[0])); return 0;
      case O_POP_BACK: ref<List>(u->obj).pop_back(); return 0;
      case O_POP_FRONT: ref<List>(u->obj).pop_front(); return 0;
      case O_INSERT: { Few f(a + 1, u->na - 1); List &c = ref<List>(u->obj); c.insert(step(c.begin(), a[0]), f.begin(), f.end()); return 0; }
      case O_INSERT_N: { List &c = ref<List>(u->obj); c.insert(step(c.begin(), a[0]), (unsigned)a[1], Item(a[2])); return 0; }
      case O_ERASE:
      {
         List &c = ref<List>(u->obj);
         List::iterator i = step(c.begin(), a[0]);
         for (int n = 0; n < a[1]; ++n)
            i = c.erase(i);
         return 0;
      }
      case O_RESIZE:
         if (a[1])
            ref<List>(u->obj).resize((unsigned)a[0], Item(a[1]));
         else
            ref<List>(u->obj).resize((unsigned)a[0]);
         return 0;
      case O_ASSIGN_N: ref<List>(u->obj).assign((unsigned)a[0], Item(a[1])); return 0;
      case O_ASSIGN_RANGE: { Few f(a, u->na); ref<List>(u->obj).assign(f.begin(), f.end()); return 0; }
      case O_REVERSE: ref<List>(u->obj).reverse(); return 0;
      case O_REMOVE:
         if (a[0])
            ref<List>(u->obj).remove(Item(a[0]));
         else
            ref<List>(u->obj).remove_if(Odd());
         return 0;
      case O_UNIQUE: ref<List>(u->obj).unique(); return 0;
      case O_MERGE: ref<List>(u->obj).merge(ref<List>(u->other)); return 0;
      case O_SPLICE: { List &c = ref<List>(u->obj); c.splice(step(c.begin(), a[0]), ref<List>(u->other)); return 0; }
      }
      return common<List>(u);
   }
}
#define CASE_list case U_LIST: return list_call(u);
#else
#define CASE_list
#endif
#ifdef HAS_forward_list
namespace
{
   typedef ttl::forward_list<Item> ForwardList;
   int forward_list_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_NEW_RANGE: { Few f(a, u->na); u->obj = new ForwardList(f.begin(), f.end()); return 0; }
      case O_EQ: return assign_swap_eq<ForwardList>(u);
      case O_REVERSE: ref<ForwardList>(u->obj).reverse(); return 0;
      case O_SPLICE: { ForwardList &c = ref<ForwardList>(u->obj); c.splice_after(step(c.before_begin(), a[0]), ref<ForwardList>(u->other)); return 0; }
      case O_ASSIGN_N: ref<ForwardList>(u->obj).assign((unsigned)a[0], Item(a[1])); return 0;
      case O_ASSIGN_RANGE: { Few f(a, u->na); ref<ForwardList>(u->obj).assign(f.begin(), f.end()); return 0; }
      }
      return slist_like<ForwardList>(u);
   }
}
#define CASE_forward_list case U_FORWARD_LIST: return forward_list_call(u);
#else
#define CASE_forward_list
#endif
#ifdef HAS_backward_list
namespace
{
   typedef ttl::backward_list<Item> BackwardList;
   int backward_list_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_NEW_RANGE: { Few f(a, u->na); u->obj = new BackwardList(f.begin(), f.end()); return 0; }
      case O_EQ: return assign_swap_eq<BackwardList>(u);
      case O_PUSH_BACK: ref<BackwardList>(u->obj).push_back(Item(a[0])); return 0;
      case O_REVERSE: ref<BackwardList>(u->obj).reverse(); return 0;
      case O_ASSIGN_N: ref<BackwardList>(u->obj).assign((unsigned)a[0], Item(a[1])); return 0;
      case O_ASSIGN_RANGE: { Few f(a, u->na); ref<BackwardList>(u->obj).assign(f.begin(), f.end()); return 0; }
      }
      return slist_like<BackwardList>(u);
   }
}
#define CASE_backward_list case U_BACKWARD_LIST: return backward_list_call(u);
#else
#define CASE_backward_list
#endif
#ifdef HAS_lazy_queue
namespace
{
   typedef ttl::lazy_queue<Item> LazyQueue;
   int lazy_queue_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_PUSH_BACK: ref<LazyQueue>(u->obj).push_back(Item(a[0])); return 0;
      case O_ROLL: ref<LazyQueue>(u->obj).cleanup(); return 0;
      }
      return slist_like<LazyQueue>(u);
   }
}
#define CASE_lazy_queue case U_LAZY_QUEUE: return lazy_queue_call(u);
#else
#define CASE_lazy_queue
#endif
#ifdef HAS_map
namespace
{
   typedef ttl::map<int, Item> Map;
   int map_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_DUMP: return dump_pairs(ref<Map>(u->obj), u->out);
      case O_PUT: u->out[0] = ref<Map>(u->obj).insert(Map::value_type(a[0], Item(a[1]))).second; return 1;
      case O_INDEX: ref<Map>(u->obj)[a[0]] = Item(a[1]); return 0;
      }
      return tree_like<Map>(u);
   }
}
#define CASE_map case U_MAP: return map_call(u);
#else
#define CASE_map
#endif
#ifdef HAS_set
namespace
{
   typedef ttl::set<int> Set;
   int set_call(UnitCall *u)
   {
      switch (u->op)
      {
      case O_DUMP: return dump(ref<Set>(u->obj), u->out);
      case O_DUMP_BACK: return dump_back(ref<Set>(u->obj), u->out);
      case O_PUT: u->out[0] = ref<Set>(u->obj).insert(u->a[0]).second; return 1;
      }
      return tree_like<Set>(u);
   }
}
#define CASE_set case U_SET: return set_call(u);
#else
#define CASE_set
#endif
#ifdef HAS_vector_map
namespace
{
   typedef ttl::vector_map<int, Item> VectorMap;
   int vector_map_call(UnitCall *u)
   {
      const int *a = u->a;
      switch (u->op)
      {
      case O_DUMP: return dump_pairs(ref<VectorMap>(u->obj), u->out);
      case O_PUT: u->out[0] = ref<VectorMap>(u->obj).insert(VectorMap::value_type(a[0], Item(a[1]))).second; return 1;
      case O_INDEX: ref<VectorMap>(u->obj)[a[0]] = Item(a[1]); return 0;
      case O_FIND: { VectorMap &c = ref<VectorMap>(u->obj); u->out[0] = c.find(a[0]) != c.end(); return 1; }
      case O_COUNT: u->out[0] = (int)ref<VectorMap>(u->obj).count(a[0]); return 1;
      case O_SWAP: ref<VectorMap>(u->obj).swap(ref<VectorMap>(u->other)); return 0;
      case O_STATE: u->out[0] = ref<VectorMap>(u->obj).empty(); u->out[1] = (int)ref<VectorMap>(u->obj).size(); return 2;
      case O_DROP: { VectorMap &c = ref<VectorMap>(u->obj); VectorMap::iterator i = c.find(a[0]); u->out[0] = i != c.end(); if (u->out[0]) c.erase(i); return 1; }
      }
      return common<VectorMap>(u);
   }
}
#define CASE_vector_map case U_VECTOR_MAP: return vector_map_call(u);
#else
#define CASE_vector_map
#endif
#ifdef HAS_sorted_vector_map
namespace
{
   typedef ttl::sorted_vector_map<int, Item> SortedVectorMap;
   int sorted_vector_map_call(UnitCall *u)
   {
      if (objectless(u))
         return common<SortedVectorMap>(u);
      const int *a = u->a;
      SortedVectorMap &c = ref<SortedVectorMap>(u->obj);
      switch (u->op)
      {
      case O_DUMP: return dump_pairs(c, u->out);
      case O_PUT: u->out[0] = c.insert(SortedVectorMap::value_type(a[0], Item(a[1]))).second; return 1;
      case O_INDEX: c[a[0]] = Item(a[1]); return 0;
      case O_FIND: u->out[0] = c.find(a[0]) != c.end(); return 1;
      case O_COUNT: u->out[0] = (int)c.count(a[0]); return 1;
      case O_LOWER: { int n = 0; for (SortedVectorMap::iterator i = c.lower_bound(a[0]); i != c.end(); ++i) ++n; u->out[0] = n; return 1; }
      case O_UPPER: { int n = 0; for (SortedVectorMap::iterator i = c.upper_bound(a[0]); i != c.end(); ++i) ++n; u->out[0] = n; return 1; }
      case O_STATE: u->out[0] = c.empty(); u->out[1] = (int)c.size(); return 2;
      }
      return common<SortedVectorMap>(u);
   }
}
#define CASE_sorted_vector_map case U_SORTED_VECTOR_MAP: return sorted_vector_map_call(u);
#else
#define CASE_sorted_vector_map
#endif
#ifdef HAS_rbtree
namespace
{
   struct Same { int operator()(int i) const { return i; } };
   struct Less { bool operator()(int a, int b) const { return a < b; } };
   typedef ttl::rbtree<int, int, Same, Less> Tree;
   int rbtree_call(UnitCall *u)
   {
      switch (u->op)
      {
      case O_SIZEOF: u->out[0] = (int)sizeof(Tree); return 1;
      case O_NEW: u->obj = new Tree; return 0;
      }
      if (objectless(u))
         return -1;
      Tree &c = ref<Tree>(u->obj);
      int k = u->na ? u->a[0] : 0, n = 0;
      switch (u->op)
      {
      case O_DELETE: delete &c; return 0;
      case O_CLEAR: c.clear(); return 0;
      case O_ASSIGN: c.assign(ref<Tree>(u->other)); return 0;
      case O_DUMP:
         if (c.get_root())
            for (ttl::rbnode *i = ttl::rbtree_base::min_node(c.get_root()); i != c.end() && n < 250; i = ttl::rbtree_base::next_node(i))
               u->out[n++] = static_cast<Tree::node *>(i)->data;
         return n;
      case O_PUT: u->out[0] = c.insert_unique(k).second; return 1;
      case O_DROP:
      {
         Tree::node *x = c.remove(k);
         u->out[0] = x != 0;
         delete x;
         return 1;
      }
      case O_FIND: u->out[0] = c.find(k) != c.end(); return 1;
      }
      return -1;
   }
}
#define CASE_rbtree case U_RBTREE: return rbtree_call(u);
#else
#define CASE_rbtree
#endif
#ifdef HAS_bitset
namespace
{
   typedef ttl::bitset<70> Bits;
   int bitset_call(UnitCall *u)
   {
      switch (u->op)
      {
      case O_SIZEOF: u->out[0] = (int)sizeof(Bits); return 1;
      case O_NEW: u->obj = new Bits; return 0;
      case O_NEW_COPY: u->obj = new Bits(ref<const Bits>(u->other)); return 0;
      }
      if (objectless(u))
         return -1;
      Bits &c = ref<Bits>(u->obj);
      const int *a = u->a;
      switch (u->op)
      {
      case O_SIZEOF: u->out[0] = (int)sizeof(Bits); return 1;
      case O_NEW: u->obj = new Bits; return 0;
      case O_NEW_COPY: u->obj = new Bits(ref<Bits>(u->other)); return 0;
      case O_DELETE: delete &c; return 0;
      case O_CLEAR: c.reset(); return 0;
      case O_ASSIGN: c = ref<Bits>(u->other); return 0;
      case O_EQ: u->out[0] = c == ref<Bits>(u->other); return 1;
      case O_DUMP:
      {
         int n = 0;
         for (unsigned i = 0; i < c.size(); ++i)
            if (c.test(i))
               u->out[n++] = (int)i;
         return n;
      }
      case O_STATE: u->out[0] = (int)c.count(); u->out[1] = c.any(); u->out[2] = c.none(); u->out[3] = c.all(); return 4;
      case O_SET: c.set((unsigned)a[0], a[1] != 0); return 0;
      case O_FLIP: if (a[0] < 0) c.flip(); else c.flip((unsigned)a[0]); return 0;
      case O_LEFT: c <<= (unsigned)a[0]; return 0;
      case O_RIGHT: c >>= (unsigned)a[0]; return 0;
      case O_AND: c &= ref<Bits>(u->other); return 0;
      case O_OR: c |= ref<Bits>(u->other); return 0;
      case O_XOR: c ^= ref<Bits>(u->other); return 0;
      }
      return -1;
   }
}
#define CASE_bitset case U_BITSET: return bitset_call(u);
#else
#define CASE_bitset
#endif
#ifdef HAS_array
namespace
{
   typedef ttl::array<Item, 7> Array;
   int array_call(UnitCall *u)
   {
      switch (u->op)
      {
      case O_SIZEOF: u->out[0] = (int)sizeof(Array); return 1;
      case O_NEW: u->obj = new Array; return 0;
      case O_NEW_COPY: u->obj = new Array(ref<const Array>(u->other)); return 0;
      }
      if (objectless(u))
         return -1;
      Array &c = ref<Array>(u->obj);
      switch (u->op)
      {
      case O_DELETE: delete &c; return 0;
      case O_DUMP: return dump(c, u->out);
      case O_DUMP_BACK: return dump_back(c, u->out);
      case O_FILL: c.fill(Item(u->a[0])); return 0;
      case O_INDEX: c[(unsigned)u->a[0]] = Item(u->a[1]); return 0;
      case O_ASSIGN: case O_SWAP: case O_EQ: return assign_swap_eq<Array>(u);
      case O_STATE: u->out[0] = (int)c.size(); u->out[1] = c.empty(); u->out[2] = val(c.front()); u->out[3] = val(c.back()); return 4;
      }
      return -1;
   }
}
#define CASE_array case U_ARRAY: return array_call(u);
#else
#define CASE_array
#endif
#ifdef HAS_algorithm
namespace
{
   template<class It> int all(It f, It l, int *out)
   {
      int n = 0;
      for (; f != l; ++f)
         out[n++] = *f;
      return n;
   }
   // obj: none; a[0]: which; a[1]: a value; a[2..]: up to 40 values
   int algorithm_call(UnitCall *u)
   {
      if (u->op != O_RUN)
         return -1;
      int buf[80], b2[80], x = u->a[1], n = u->na - 2, *out = u->out;
      const int *cf = u->a + 2, *cl = cf + n;
      for (int i = 0; i < n; ++i)
         b2[i] = buf[i] = cf[i];
      int *f = buf, *l = buf + n;
      const More more = More();
      switch (u->a[0])
      {
      case 0: out[0] = (int)(ttl::find(cf, cl, x) - cf); return 1;
      case 1: out[0] = (int)(ttl::find_if(cf, cl, Odd()) - cf); return 1;
      case 2: out[0] = (int)(ttl::find_if_not(cf, cl, Odd()) - cf); return 1;
      case 3: out[0] = (int)ttl::count(cf, cl, x); return 1;
      case 4: out[0] = (int)ttl::count_if(cf, cl, Odd()); return 1;
      case 5: out[0] = ttl::all_of(cf, cl, Odd()); out[1] = ttl::any_of(cf, cl, Odd()); out[2] = ttl::none_of(cf, cl, Odd()); return 3;
      case 6: out[0] = (int)(ttl::search(cf, cl, cf + n / 2, cl) - cf); out[1] = (int)(ttl::search(cf, cl, cf + n / 2, cl, Near()) - cf); return 2;
      case 7: out[0] = (int)(ttl::search_n(cf, cl, 2, x) - cf); out[1] = (int)(ttl::search_n(cf, cl, 2, x, Near()) - cf); return 2;
      case 8: out[0] = (int)(ttl::adjacent_find(cf, cl) - cf); out[1] = (int)(ttl::adjacent_find(cf, cl, More()) - cf); return 2;
      case 9: out[0] = ttl::equal(cf, cl, b2); b2[n / 2] ^= 1; out[1] = ttl::equal(cf, cl, b2); out[2] = ttl::equal(cf, cl, b2, Near()); out[3] = ttl::equal(cf, cl, cf, cl - 1); return 4;
      case 10: out[0] = 0; { Count c = {out}; ttl::for_each(cf, cl, c); } return 1;
      case 11: ttl::fill(f, l, x); return all(f, l, out);
      case 12: ttl::fill_n(f, n / 2, x); return all(f, l, out);
      case 13: ttl::copy(cf, cl - n / 2, f + n / 2); return all(f, l, out);
      case 14: ttl::copy_backward(cf, cl - n / 2, l); return all(f, l, out);
      case 15: return all(out, ttl::copy_if(cf, cl, out, Odd()), out);
      case 16: ttl::copy_n(cf, n / 2, f + n / 2); return all(f, l, out);
      case 17: { int k = x; Next g = {&k}; ttl::generate(f, l, g); } return all(f, l, out);
      case 18: { int k = x; Next g = {&k}; ttl::generate_n(f, n / 2, g); } return all(f, l, out);
      case 19: ttl::replace(f, l, x, -5); return all(f, l, out);
      case 20: ttl::replace_if(f, l, Odd(), x); return all(f, l, out);
      case 21: return all(out, ttl::replace_copy(cf, cl, out, x, -5), out);
      case 22: return all(out, ttl::replace_copy_if(cf, cl, out, Odd(), x), out);
      case 23: return all(out, ttl::remove_copy(cf, cl, out, x), out);
      case 24: return all(out, ttl::remove_copy_if(cf, cl, out, Odd()), out);
      case 25: return all(f, ttl::remove(f, l, x), out);
      case 26: return all(f, ttl::remove_if(f, l, Odd()), out);
      case 27: return all(out, ttl::transform(cf, cl, out, Twice()), out);
      case 28: return all(out, ttl::transform(cf, cl, b2, out, Plus()), out);
      case 29: return all(out, ttl::reverse_copy(cf, cl, out), out);
      case 30: out[0] = ttl::min(cf[0], x); out[1] = ttl::max(cf[0], x); out[2] = ttl::min(cf[0], x, more); out[3] = ttl::max(cf[0], x, more); return 4;
      case 31: out[0] = (int)(ttl::min_element(cf, cl) - cf); out[1] = (int)(ttl::max_element(cf, cl) - cf); return 2;
      // sorted input
      case 32: out[0] = (int)(ttl::lower_bound(cf, cl, x) - cf); out[1] = (int)(ttl::upper_bound(cf, cl, x) - cf); out[2] = ttl::binary_search(cf, cl, x); return 3;
      case 33: out[0] = ttl::is_sorted(cf, cl); out[1] = (int)(ttl::is_sorted_until(cf, cl) - cf); return 2;
      case 34: return all(out, ttl::merge(cf, cf + n / 2, cf + n / 2, cl, out), out);
#ifdef HAS_utility
      case 35: ttl::reverse(f, l); return all(f, l, out);
      case 36: ttl::swap_ranges(f, f + n / 2, b2 + n / 2); all(f, l, out); all(b2, b2 + n, out + n); return n * 2;
      case 37: { ttl::pair<const int *, const int *> p = ttl::mismatch(cf, cl, (b2[n / 2] ^= 1, (const int *)b2), (const int *)b2 + n); out[0] = (int)(p.first - cf); out[1] = (int)(p.second - b2); } return 2;
      case 38: { ttl::pair<const int *, const int *> p = ttl::equal_range(cf, cl, x); out[0] = (int)(p.first - cf); out[1] = (int)(p.second - cf); } return 2;
      case 39: { ttl::pair<const int &, const int &> p = ttl::minmax(cf[0], x); out[0] = p.first; out[1] = p.second; } return 2;
      case 40: { ttl::pair<const int *, const int *> p = ttl::minmax_element(cf, cl); out[0] = *p.first; out[1] = *p.second; } return 2;
#endif
      }
      return -1;
   }
}
#define CASE_algorithm case U_ALGORITHM: return algorithm_call(u);
#else
#define CASE_algorithm
#endif
#if defined HAS_numeric || defined HAS_utility || defined HAS_functional
namespace
{
   int vocab_call(UnitCall *u)
   {
      if (u->op != O_RUN)
         return -1;
      int n = u->na - 2, x = u->a[1], *out = u->out;
      const int *cf = u->a + 2, *cl = cf + n;
      switch (u->a[0])
      {
#ifdef HAS_numeric
      case 0: out[0] = ttl::accumulate(cf, cl, x); return 1;
      case 1: ttl::iota(out, out + n, x); return n;
#endif
#ifdef HAS_functional
      case 2: out[0] = ttl::less<int>()(cf[0], x); out[1] = ttl::greater<int>()(cf[0], x); out[2] = ttl::equal_to<int>()(cf[0], x); out[3] = ttl::not_equal_to<int>()(cf[0], x); return 4;
#endif
#ifdef HAS_utility
      case 3:
      {
         ttl::pair<int, Item> p(cf[0], Item(x)), q = p;
         q.first++;
         q.swap(p);
         ttl::pair<long, Item> w(q);
         out[0] = p.first; out[1] = p.second.k; out[2] = q.first; out[3] = p == q; out[4] = (int)w.first;
         return 5;
      }
      case 4: { int a = cf[0], b = x; ttl::swap(a, b); out[0] = a; out[1] = b; return 2; }
      case 5: { int a[7]; out[0] = (int)ttl_countof(a); out[1] = ttl::distance(cf, cl); const int *i = cf; ttl::advance(i, n - 1); out[2] = *i; return 3; }
#endif
      }
      return -1;
   }
}
#define CASE_vocab case U_VOCAB: return vocab_call(u);
#else
#define CASE_vocab
#endif
#ifdef HAS_type_traits
namespace
{
   int types_call(UnitCall *u)
   {
      if (u->op != O_RUN)
         return -1;
      const bool b[] = {
         ttl::is_same<ttl::remove_cv<const volatile int>::type, int>::value, ttl::is_same<ttl::remove_reference<int &>::type, int>::value,
         ttl::is_pointer<int *>::value, ttl::is_integral<char>::value, ttl::is_void<void>::value, ttl::is_floating_point<double>::value,
         ttl::is_arithmetic<float>::value, ttl::is_const<const int>::value, ttl::is_array<int[3]>::value, ttl::is_unsigned<unsigned>::value,
         !ttl::is_same<int, long>::value, !ttl::is_pointer<int>::value, !ttl::is_integral<int *>::value, !ttl::is_void<int>::value,
         !ttl::is_floating_point<int>::value, !ttl::is_arithmetic<Item>::value, !ttl::is_const<int>::value, !ttl::is_array<int>::value,
         !ttl::is_unsigned<int>::value, ttl::is_signed<int>::value
      };
      const int n = (int)(sizeof b / sizeof *b);
      for (int i = 0; i < n; ++i)
         u->out[i] = b[i];
      return n;
   }
}
#define CASE_types case U_TYPES: return types_call(u);
#else
#define CASE_types
#endif

extern "C" int UNIT_NAME(UnitCall *u)
{
   switch (u->kind)
   {
   CASE_vector CASE_fixed_vector CASE_list CASE_forward_list CASE_backward_list CASE_lazy_queue CASE_map CASE_set CASE_vector_map
   CASE_sorted_vector_map CASE_rbtree CASE_bitset CASE_array CASE_algorithm CASE_vocab CASE_types
   }
   return -1;
}
