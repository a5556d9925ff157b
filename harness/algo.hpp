// Shared pieces of the algorithm harnesses
#ifndef MON_ALGO_HPP
#define MON_ALGO_HPP
#include "core_impl.hpp"
#include "miter.hpp"
#include <numeric>
using namespace mon;

typedef std::vector<V> Vs;
struct VEq { bool operator()(V a, V b) const { return a.key == b.key; } };
struct VLt { bool operator()(V a, V b) const { return a.key < b.key; } };

// Counts and checks the calls of a predicate; returns assorted true values
struct Calls { uint64_t n; Vs args; Calls(): n(0) {} };
template<class T, class F> struct Pred1
{
   Calls *c;
   F f;
   int operator()(const T &t) const
   {
      OutLib out;
      S->pred_calls++;
      c->n++;
      V v = El<T>::read(t);
      if (c->args.size() < 4096)
         c->args.push_back(v);
      static const int yes[] = {1, 2, -1, 256};
      return f(v) ? yes[c->n & 3] : 0;
   }
};
template<class T, class F> inline Pred1<T, F> pred1(Calls &c, F f) { Pred1<T, F> p = {&c, f}; return p; }
template<class T, class F> struct Pred2
{
   Calls *c;
   F f;
   int operator()(const T &a, const T &b) const
   {
      OutLib out;
      S->pred_calls++;
      c->n++;
      static const int yes[] = {1, 2, -1, 256};
      return f(El<T>::read(a), El<T>::read(b)) ? yes[c->n & 3] : 0;
   }
};
template<class T, class F> inline Pred2<T, F> pred2(Calls &c, F f) { Pred2<T, F> p = {&c, f}; return p; }

inline void calls_at_most(const Calls &c, uint64_t lim, size_t n)
{
   S->disc_events++;
   if (c.n > lim)
      fail(DISC, "calls", "the function was applied %llu times to %zu elements, at most %llu expected", (unsigned long long)c.n, n, (unsigned long long)lim);
}
inline void calls_exactly(const Calls &c, uint64_t lim, size_t n)
{
   S->disc_events++;
   if (c.n != lim)
      fail(DISC, "calls", "the function was applied %llu times to %zu elements, expected %llu", (unsigned long long)c.n, n, (unsigned long long)lim);
}
inline void result(size_t got, size_t expect, size_t n)
{
   S->observations++;
   S->elem_checks++;
   if (got != expect)
      fail(SEM, "result", "returns position %zu, expected %zu of %zu", got, expect, n);
}
inline void result_b(bool got, bool expect)
{
   S->observations++;
   S->elem_checks++;
   if (got != expect)
      fail(SEM, "result", "returns %d", (int)got);
}
inline void not_past(size_t stream, size_t expect)
{
   if (stream == (size_t)-1)
      return;
   S->disc_events++;
   if (stream > expect)
      fail(DISC, "consumed", "a single-pass range was advanced to %zu, expected %zu", stream, expect);
}
inline void same_vals(const char *what, const Vs &got, const Vs &e)
{
   S->observations++;
   S->elem_checks += e.size();
   if (got.size() != e.size())
      fail(SEM, what, "%zu values, expected %zu", got.size(), e.size());
   for (size_t i = 0; i < e.size() && i < got.size(); ++i)
      if (got[i].key != e[i].key || got[i].tag != e[i].tag)
         fail(SEM, what, "value %zu is (%d,#%u), expected (%d,#%u)", i, got[i].key, got[i].tag, e[i].key, e[i].tag);
}
template<class T> inline void unchanged(const Arr<T> &a, const Vs &v) { same_vals("input-changed", a.read(), v); }

template<class T> inline V tv(int key, unsigned tag) { V v = {key, tag}; return El<T>::norm(v); }

// The algorithms work in place: nothing may be allocated
struct NoAlloc
{
   uint64_t a;
   NoAlloc(): a(H.lib_allocs) {}
   void done() const
   {
      S->disc_events++;
      if (H.lib_allocs != a)
         fail(ALLOC, "allocates", "an algorithm allocated memory");
   }
};
struct Gen
{
   Rng &r;
   unsigned tag;
   int span;
   explicit Gen(Rng &rr): r(rr), tag(0) { span = r.below(3) ? r.range(1, 4) : r.range(1, 40); }
   template<class T> Vs vals(size_t n)
   {
      Vs v;
      int mode = (int)r.below(5);
      for (size_t i = 0; i < n; ++i)
         v.push_back(tv<T>(mode == 4 ? (int)r.next() % 100000 : r.below(span), ++tag));
      return v;
   }
   size_t len()
   {
      switch (r.below(8))
      {
      case 0: return 0;
      case 1: return 1;
      case 2: return 2;
      case 3: return 3;
      case 4: return r.below(60);
      default: return r.below(12);
      }
   }
};
inline void fingerprint(const Vs &a, const Vs &b, uint64_t x)
{
   uint64_t h = mix(hstr(S->op), x);
   for (size_t i = 0; i < a.size(); ++i)
      h = mix(h, (uint32_t)a[i].key);
   h = mix(h, 99999);
   for (size_t i = 0; i < b.size(); ++i)
      h = mix(h, (uint32_t)b[i].key);
   note_state(h);
}
inline unsigned lg(size_t n)
{
   unsigned l = 0;
   while (n >>= 1)
      ++l;
   return l + 1;
}
#endif
