// The library beside the C++ standard library and beside user code whose namespaces
// hold functions of the same names: its algorithms on standard iterators, its
// containers of standard elements, standard containers of its containers, standard
// algorithms on its iterators.  The standard library's result is the expected one.
#include <string>
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <set>
#include <map>
#include <memory>
#include <functional>
#include <iterator>
#include <numeric>
#include <sstream>
#include <algorithm>
#include "core_impl.hpp"
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/vector_map.hpp"
#ifndef MON_PART
#define MON_PART 0
#endif
using namespace mon;
static Rng *g;

// A user's namespace with functions the library has, too
namespace host
{
   struct Item
   {
      Tr t;
      Item(): t(0, 0) {}
      Item(int k): t(k, 0) {}
      bool operator==(const Item &o) const { return t == o.t; }
      bool operator!=(const Item &o) const { return t != o.t; }
      bool operator<(const Item &o) const { return t < o.t; }
      bool operator>(const Item &o) const { return t > o.t; }
   };
   struct It
   {
      typedef std::random_access_iterator_tag iterator_category;
      typedef Item value_type;
      typedef ptrdiff_t difference_type;
      typedef Item *pointer;
      typedef Item &reference;
      Item *p;
      It(): p(0) {}
      explicit It(Item *q): p(q) {}
      Item &operator*() const { return *p; }
      Item *operator->() const { return p; }
      Item &operator[](ptrdiff_t n) const { return p[n]; }
      It &operator++() { ++p; return *this; }
      It operator++(int) { return It(p++); }
      It &operator--() { --p; return *this; }
      It operator--(int) { return It(p--); }
      It &operator+=(ptrdiff_t n) { p += n; return *this; }
      It &operator-=(ptrdiff_t n) { p -= n; return *this; }
      It operator+(ptrdiff_t n) const { return It(p + n); }
      It operator-(ptrdiff_t n) const { return It(p - n); }
      friend It operator+(ptrdiff_t n, It i) { return i + n; }
      ptrdiff_t operator-(It o) const { return p - o.p; }
      bool operator==(It o) const { return p == o.p; }
      bool operator!=(It o) const { return p != o.p; }
      bool operator<(It o) const { return p < o.p; }
      bool operator>(It o) const { return p > o.p; }
      bool operator<=(It o) const { return p <= o.p; }
      bool operator>=(It o) const { return p >= o.p; }
   };
   typedef bool (*P1)(const Item &);
   typedef bool (*P2)(const Item &, const Item &);
   inline void taken(const char *name) { fail(SEM, "takes-the-users", "a function %s of the user's namespace was called for the library's", name); }
#define T1(name, ret, ...) inline ret name(__VA_ARGS__) { taken(#name); return a; }
   T1(find, It, It a, It, const Item &)
   T1(find_if, It, It a, It, P1)
   T1(find_if_not, It, It a, It, P1)
   T1(adjacent_find, It, It a, It)
   T1(adjacent_find, It, It a, It, P2)
   T1(search, It, It a, It, It, It)
   T1(search, It, It a, It, It, It, P2)
   T1(search_n, It, It a, It, int, const Item &)
   T1(lower_bound, It, It a, It, const Item &)
   T1(lower_bound, It, It a, It, const Item &, P2)
   T1(upper_bound, It, It a, It, const Item &)
   T1(upper_bound, It, It a, It, const Item &, P2)
   T1(is_sorted_until, It, It a, It)
   T1(min_element, It, It a, It)
   T1(max_element, It, It a, It)
   T1(copy, It, It a, It, It)
   T1(copy, Item *, Item *a, Item *, Item *)
   T1(copy, const Item *, const Item *a, const Item *, Item *)
   T1(copy_n, It, It a, int, It)
   T1(copy_backward, It, It a, It, It)
   T1(copy_backward, Item *, Item *a, Item *, Item *)
   T1(copy_if, It, It a, It, It, P1)
   T1(remove, It, It a, It, const Item &)
   T1(remove_if, It, It a, It, P1)
   T1(remove_copy, It, It a, It, It, const Item &)
   T1(remove_copy_if, It, It a, It, It, P1)
   T1(reverse_copy, It, It a, It, It)
   T1(swap_ranges, It, It a, It, It)
   T1(swap_ranges, Item *, Item *a, Item *, Item *)
   T1(fill_n, It, It a, int, const Item &)
   T1(fill_n, Item *, Item *a, size_t, const Item &)
   T1(next, It, It a)
   T1(prev, It, It a)
   T1(min, const Item &, const Item &a, const Item &)
   T1(max, const Item &, const Item &a, const Item &)
   T1(move, Item &, Item &a)
   T1(forward, Item &, Item &a)
   T1(rotate, It, It a, It, It)
   T1(unique, It, It a, It)
#undef T1
#define T0(name, ret, val, ...) inline ret name(__VA_ARGS__) { taken(#name); val; }
   T0(count, int, return -1, It, It, const Item &)
   T0(count_if, int, return -1, It, It, P1)
   T0(all_of, bool, return false, It, It, P1)
   T0(any_of, bool, return false, It, It, P1)
   T0(none_of, bool, return false, It, It, P1)
   T0(equal, bool, return false, It, It, It)
   T0(equal, bool, return false, const Item *, const Item *, const Item *)
   T0(equal, bool, return false, const Item *, const Item *, const Item *, const Item *)
   T0(is_sorted, bool, return false, It, It)
   T0(binary_search, bool, return false, It, It, const Item &)
   T0(iter_swap, void, return, It, It)
   T0(iter_swap, void, return, Item *, Item *)
   T0(fill, void, return, It, It, const Item &)
   T0(fill, void, return, Item *, Item *, const Item &)
   T0(reverse, void, return, It, It)
   T0(replace, void, return, It, It, const Item &, const Item &)
   T0(distance, int, return -1, It, It)
   T0(distance, int, return -1, const Item *, const Item *)
   T0(distance, int, return -1, Item *, Item *)
   T0(advance, void, return, It &, int)
   T0(make_pair, int, return -1, It, It)
   T0(minmax, int, return -1, const Item &, const Item &)
   T0(minmax_element, int, return -1, It, It)
   T0(mismatch, int, return -1, It, It, It)
   T0(mismatch, int, return -1, const Item *, const Item *, const Item *)
   T0(merge, int, return -1, It, It, It, It, It)
   T0(transform, int, return -1, It, It, It, P1)
   T0(for_each, int, return -1, It, It, P1)
   T0(replace_if, void, return, It, It, P1, const Item &)
   T0(replace_copy, int, return -1, It, It, It, const Item &, const Item &)
   T0(equal_range, int, return -1, It, It, const Item &)
   T0(accumulate, int, return -1, It, It, Item)
   T0(iota, void, return, It, It, Item)
   T0(begin, int, return -1, const Item (&)[5])
   T0(end, int, return -1, const Item (&)[5])
   T0(make_pair, int, return -1, const Item &, const Item &)
   T0(destroy, void, return, Item *, Item *)
   T0(destroy, void, return, Item *)
   T0(construct, void, return, Item *, const Item &)
#undef T0
   // a container with those iterators
   struct Box
   {
      typedef Item value_type;
      std::vector<Item> v;
      Box() {}
      template<class I> Box(I a, I b): v(a, b) {}
      It begin() { return It(v.data()); }
      It end() { return It(v.data() + v.size()); }
      size_t size() const { return v.size(); }
      bool operator==(const Box &o) const { return v.size() == o.v.size() && std::equal(v.begin(), v.end(), o.v.begin()); }
   };
   static bool odd(const Item &a) { return a.t.k & 1; }
   static bool less_last(const Item &a, const Item &b) { return (a.t.k & 3) < (b.t.k & 3); }
   static bool same_last(const Item &a, const Item &b) { return (a.t.k & 3) == (b.t.k & 3); }
}

template<class T> struct Mk;
template<> struct Mk<std::string>
{
   static const char *name() { return "string"; }
   static std::string make(int k) { char b[16]; snprintf(b, sizeof b, "%d.", k); std::string s; for (int i = 0; i < 1 + k % 4 * 4; ++i) s += b; return s; }
   static std::function<bool(const std::string &)> p1() { size_t n = 3 + g->below(9); return [n](const std::string &s) { return s.size() > n; }; }
   static std::less<std::string> lt() { return std::less<std::string>(); }
   static bool eq(const std::string &a, const std::string &b) { return a.size() == b.size(); }
};
template<> struct Mk<std::vector<int> >
{
   typedef std::vector<int> T;
   static const char *name() { return "vector<int>"; }
   static T make(int k) { return T(1 + k % 3, k); }
   struct P { size_t n; bool operator()(const T &v) { return v.size() == n; } };
   static P p1() { P p = {1 + g->below(3)}; return p; }
   static std::greater<T> lt() { return std::greater<T>(); }
   static bool eq(const T &a, const T &b) { return a.size() == b.size(); }
};
static std::vector<std::shared_ptr<int> > *g_pool;
template<> struct Mk<std::shared_ptr<int> >
{
   typedef std::shared_ptr<int> T;
   static const char *name() { return "shared_ptr"; }
   static T make(int k) { return (*g_pool)[(size_t)k % g_pool->size()]; }
   static bool p(const T &v) { return v && (*v & 1); }
   static bool (*p1())(const T &) { return p; }
   struct L { bool operator()(const T &a, const T &b) const { return (a ? *a : -1) < (b ? *b : -1); } };
   static L lt() { return L(); }
   static bool eq(const T &a, const T &b) { return (a ? *a : -1) % 3 == (b ? *b : -1) % 3; }
};
template<> struct Mk<host::Item>
{
   static const char *name() { return "Item"; }
   static host::Item make(int k) { return host::Item(k); }
   static host::P1 p1() { return host::odd; }
   static host::P2 lt() { return host::less_last; }
   static bool eq(const host::Item &a, const host::Item &b) { return host::same_last(a, b); }
};
template<class C> struct Nm;
template<class T> struct Nm<std::vector<T> > { static const char *name() { return "vector"; } };
template<class T> struct Nm<std::deque<T> > { static const char *name() { return "deque"; } };
template<class T> struct Nm<std::list<T> > { static const char *name() { return "list"; } };
template<class T> struct Nm<std::forward_list<T> > { static const char *name() { return "forward_list"; } };
template<> struct Nm<host::Box> { static const char *name() { return "Box"; } };

template<class C> struct Algo
{
   typedef typename C::value_type T;
   typedef decltype(std::declval<C &>().begin()) I;
   typedef typename std::iterator_traits<I>::iterator_category Cat;
   enum { bidi = std::is_base_of<std::bidirectional_iterator_tag, Cat>::value, ra = std::is_base_of<std::random_access_iterator_tag, Cat>::value };
   C in, in2;
   size_t n;
   T val, val2;

   static size_t len(C &c) { return (size_t)std::distance(c.begin(), c.end()); }
   static size_t pos(C &c, I i) { return (size_t)std::distance(c.begin(), i); }
   static I at(C &c, size_t k) { I i = c.begin(); std::advance(i, k); return i; }
   static std::vector<T> some(size_t n, unsigned span)
   {
      std::vector<T> v;
      for (size_t i = 0; i < n; ++i)
         v.push_back(Mk<T>::make((int)g->below(span)));
      return v;
   }
   Algo(): n(g->below(3) ? g->below(10) : g->below(40)), val(Mk<T>::make((int)g->below(5))), val2(Mk<T>::make((int)g->below(5)))
   {
      unsigned span = 1 + g->below(6);
      std::vector<T> a = some(n, span), b = some(n, span);
      if (g->below(3) == 0)
         b = a;
      if (g->below(3) == 0 && n)
         b[g->below(n)] = val;
      in = C(a.begin(), a.end());
      in2 = C(b.begin(), b.end());
   }
   // F computes a number from two containers, L with the library, X with the standard one
   template<class L, class X> void both(const char *name, L l, X x)
   {
      C a(in), a2(in2), b(in), b2(in2);
      char buf[90];
      snprintf(buf, sizeof buf, "%s of std::%s<%s>", name, Nm<C>::name(), Mk<T>::name());
      op(buf, " n=%zu", n);
      long long r = (long long)l(a, a2), e = (long long)x(b, b2);
      S->observations++;
      S->elem_checks += n;
      note_state(mix(mix(hstr(buf), n), (uint64_t)e));
      if (r != e)
         fail(SEM, "result", "%lld, expected %lld, of %zu elements", r, e, n);
      if (!(a == b) || !(a2 == b2))
         fail(SEM, "content", "another content of %zu elements than the standard algorithm leaves", n);
   }
#define W [&](C &c, C &d) -> long long
#define B c.begin(), c.end()
#define D d.begin(), d.end()
#define BOTH(name, l, x) both(name, W { (void)d; l; }, W { (void)d; x; })
#define P(call) BOTH(#call, return pos(c, ttl::call), return pos(c, std::call))
#define Q(call) BOTH(#call, return pos(d, ttl::call), return pos(d, std::call))
#define N(call) BOTH(#call, return ttl::call, return std::call)
#define U(call) BOTH(#call, ttl::call; return 0, std::call; return 0)
#define PP(call) BOTH(#call, auto r = ttl::call; return pos(c, r.first) * 1000 + pos(d, r.second), auto r = std::call; return pos(c, r.first) * 1000 + pos(d, r.second))
#define PC(call) BOTH(#call, auto r = ttl::call; return pos(c, r.first) * 1000 + pos(c, r.second), auto r = std::call; return pos(c, r.first) * 1000 + pos(c, r.second))
   void query()
   {
      auto p = Mk<T>::p1();
      auto eq = Mk<T>::eq;
      size_t k = g->below((unsigned)n + 1), q = k + g->below((unsigned)(n - k) + 1), cnt = g->below(4);
      switch (g->below(12))
      {
      case 0: P(find(B, val)); N(count(B, val)); break;
      case 1: P(find_if(B, p)); P(find_if_not(B, p)); N(count_if(B, p)); break;
      case 2: N(all_of(B, p)); N(any_of(B, p)); N(none_of(B, p)); break;
      case 3: P(adjacent_find(B)); P(adjacent_find(B, eq)); break;
      case 4: P(search_n(B, (int)cnt, val)); P(search_n(B, (int)cnt, val, eq)); break;
      case 5: P(search(B, at(d, k), at(d, q))); P(search(B, at(d, k), at(d, q), eq)); break;
      case 6: N(equal(B, d.begin())); N(equal(B, at(d, k), d.end())); N(equal(B, d.begin(), eq)); N(equal(B, D, eq)); break;
      case 7: PP(mismatch(B, d.begin())); PP(mismatch(B, at(d, k), d.end())); PP(mismatch(B, d.begin(), eq)); PP(mismatch(B, D, eq)); break;
      case 8: N(is_sorted(B)); P(is_sorted_until(B)); break;
      case 9:
         P(min_element(B));
         // of equal ones any may be the greatest
         BOTH("max_element", auto i = ttl::max_element(B); return i == c.end() ? -1 : std::count(B, *i) * 100 + std::count_if(B, [&](const T &x) { return *i < x; }),
              auto i = std::max_element(B); return i == c.end() ? -1 : std::count(B, *i) * 100);
         BOTH("minmax_element", auto r = ttl::minmax_element(B); return r.second == c.end() ? -1 : pos(c, r.first) * 1000 + std::count_if(B, [&](const T &x) { return *r.second < x; }),
              auto r = std::minmax_element(B); return r.second == c.end() ? -1 : pos(c, r.first) * 1000);
         break;
      case 10:
      {
         auto lt = Mk<T>::lt();
         BOTH("min max", return (&ttl::min(val, val2) == &val) * 2 + (&ttl::max(val, val2) == &val), return (&std::min(val, val2) == &val) * 2 + (&std::max(val, val2) == &val));
         BOTH("min max comp", return (&ttl::min(val, val2, lt) == &val) * 2 + (&ttl::max(val, val2, lt) == &val), return (&std::min(val, val2, lt) == &val) * 2 + (&std::max(val, val2, lt) == &val));
         BOTH("minmax", return &ttl::minmax(val, val2).first == &val, return &std::minmax(val, val2).first == &val);
         BOTH("minmax comp", return &ttl::minmax(val, val2, lt).first == &val, return &std::minmax(val, val2, lt).first == &val);
         break;
      }
      default:
         BOTH("for_each", size_t h = 1; ttl::for_each(B, [&](const T &x) { h = h * 3 + (x == val); }); return h, size_t h = 1; std::for_each(B, [&](const T &x) { h = h * 3 + (x == val); }); return h);
         break;
      }
   }
   void modify()
   {
      auto p = Mk<T>::p1();
      size_t k = g->below((unsigned)n + 1);
      switch (g->below(bidi ? 14 : 11))
      {
      case 0: U(fill(B, val)); Q(fill_n(d.begin(), (int)k, val)); break;
      case 1: Q(copy(B, d.begin())); Q(copy_n(c.begin(), (int)k, d.begin())); break;
      case 2: Q(copy_if(B, d.begin(), p)); break;
      case 3: U(replace(B, val, val2)); U(replace_if(B, p, val2)); break;
      case 4: Q(replace_copy(B, d.begin(), val, val2)); Q(replace_copy_if(B, d.begin(), p, val2)); break;
      case 5: BOTH("remove", auto i = ttl::remove(B, val); size_t r = pos(c, i); std::fill(i, c.end(), val); return r, auto i = std::remove(B, val); size_t r = pos(c, i); std::fill(i, c.end(), val); return r); break;
      case 6: BOTH("remove_if", auto i = ttl::remove_if(B, p); size_t r = pos(c, i); std::fill(i, c.end(), val); return r, auto i = std::remove_if(B, p); size_t r = pos(c, i); std::fill(i, c.end(), val); return r); break;
      case 7: Q(remove_copy(B, d.begin(), val)); Q(remove_copy_if(B, d.begin(), p)); break;
      case 8: Q(swap_ranges(B, d.begin())); if (n) U(iter_swap(c.begin(), at(d, k % n))); break;
      case 9: BOTH("generate", int z = 0; ttl::generate(B, [&z] { return Mk<T>::make(++z); }); return z, int z = 0; std::generate(B, [&z] { return Mk<T>::make(++z); }); return z);
         BOTH("generate_n", int z = 0; ttl::generate_n(c.begin(), k, [&z] { return Mk<T>::make(++z); }); return z, int z = 0; std::generate_n(c.begin(), k, [&z] { return Mk<T>::make(++z); }); return z);
         break;
      case 10:
      {
         std::function<T(const T &)> f = [this](const T &a) { return a == val ? val2 : a; };
         auto f2 = [](const T &a, const T &b) { return a < b ? a : b; };
         Q(transform(B, d.begin(), f));
         Q(transform(B, d.begin(), d.begin(), f2));
         BOTH("merge", std::sort(std::begin(tmp(c)), std::end(tmp(c)));
              std::vector<T> o; o.reserve(3); ttl::merge(tmp(c).begin(), tmp(c).end(), tmp(c).begin(), tmp(c).end(), std::back_inserter(o)); d = C(o.begin(), o.end()); return o.size(),
              std::sort(std::begin(tmp(c)), std::end(tmp(c)));
              std::vector<T> o; std::merge(tmp(c).begin(), tmp(c).end(), tmp(c).begin(), tmp(c).end(), std::back_inserter(o)); d = C(o.begin(), o.end()); return o.size());
         break;
      }
      default:
         if constexpr (bidi)
         {
            U(reverse(B));
            Q(reverse_copy(B, d.begin()));
            Q(copy_backward(c.begin(), at(c, k), d.end()));
            // over itself, further behind
            P(copy_backward(c.begin(), at(c, k), c.end()));
         }
      }
   }
   // what is in c, to be sorted, until the next call for another container
   std::vector<T> buf;
   C *bufof = 0;
   std::vector<T> &tmp(C &c)
   {
      if (bufof != &c)
         buf.assign(c.begin(), c.end()), bufof = &c;
      return buf;
   }
   void sorted()
   {
      if constexpr (ra)
      {
         auto lt = Mk<T>::lt();
         C keep(in);
         std::sort(in.begin(), in.end());
         P(lower_bound(B, val)); P(upper_bound(B, val)); N(binary_search(B, val)); PC(equal_range(B, val));
         std::stable_sort(in.begin(), in.end(), lt);
         P(lower_bound(B, val, lt)); P(upper_bound(B, val, lt)); N(binary_search(B, val, lt)); PC(equal_range(B, val, lt));
         in = keep;
         BOTH("distance", return ttl::distance(B), return std::distance(B));
      }
   }
   void run(unsigned ops)
   {
      for (unsigned i = 0; i < ops; ++i)
      {
         bufof = 0;
         switch (g->below(5))
         {
         case 0: case 1: query(); break;
         case 2: case 3: modify(); break;
         default: sorted(); break;
         }
      }
      live();
   }
   void live() {}
};
#undef P
#undef Q
#undef N
#undef U
#undef W
#undef B
#undef D

// streams, inserters, and what else is no ordinary iterator
static void streams()
{
   std::vector<std::string> v = Algo<std::vector<std::string> >::some(g->below(12), 5), o, e;
   std::string text;
   for (size_t i = 0; i < v.size(); ++i)
      text += v[i] + (i & 1 ? " " : "\n");
   std::string val = Mk<std::string>::make((int)g->below(5));
   auto p = Mk<std::string>::p1();
   typedef std::istream_iterator<std::string> In;
   op("istream_iterator", " %zu words", v.size());
#define TRY(l, x) { o.clear(); e.clear(); std::istringstream s(text), t(text); long a = (long)l, b = (long)x; S->observations++; S->elem_checks += v.size(); \
      if (a != b || o != e) fail(SEM, "result", "%ld, %zu words, expected %ld, %zu: %s", a, o.size(), b, e.size(), #l); }
   TRY(ttl::count(In(s), In(), val), std::count(In(t), In(), val));
   TRY(ttl::count_if(In(s), In(), p), std::count_if(In(t), In(), p));
   TRY((ttl::copy(In(s), In(), std::back_inserter(o)), 0), (std::copy(In(t), In(), std::back_inserter(e)), 0));
   TRY((ttl::remove_copy(In(s), In(), std::back_inserter(o), val), 0), (std::remove_copy(In(t), In(), std::back_inserter(e), val), 0));
   TRY((ttl::replace_copy_if(In(s), In(), std::back_inserter(o), p, val), 0), (std::replace_copy_if(In(t), In(), std::back_inserter(e), p, val), 0));
   TRY((ttl::find(In(s), In(), val) == In()), (std::find(In(t), In(), val) == In()));
   TRY(ttl::any_of(In(s), In(), p), std::any_of(In(t), In(), p));
   TRY(ttl::none_of(In(s), In(), p), std::none_of(In(t), In(), p));
   TRY(ttl::equal(In(s), In(), v.begin()), std::equal(In(t), In(), v.begin()));
#undef TRY
   {
      op("ostream_iterator");
      std::ostringstream a, b;
      ttl::copy(v.begin(), v.end(), std::ostream_iterator<std::string>(a, ","));
      std::copy(v.begin(), v.end(), std::ostream_iterator<std::string>(b, ","));
      if (a.str() != b.str())
         fail(SEM, "content", "\"%s\"", a.str().c_str());
   }
   {
      op("inserter");
      std::set<std::string> a, b;
      ttl::copy_if(v.rbegin(), v.rend(), std::inserter(a, a.end()), p);
      std::copy_if(v.rbegin(), v.rend(), std::inserter(b, b.end()), p);
      if (a != b)
         fail(SEM, "content");
      ttl::set<std::string> s(a.begin(), a.end());
      std::set<std::string, ttl::greater<std::string> > r(s.begin() == s.end() ? a.end() : a.begin(), a.end());
      if (!std::equal(a.rbegin(), a.rend(), r.begin()))
         fail(SEM, "order", "of a standard set with the library's comparator");
      auto it = s.begin();
      for (const std::string &x : a)
         if (it == s.end() || *it++ != x)
            fail(SEM, "content", "of a set made from a standard one");
   }
   {
      op("accumulate");
      std::list<int> l(1 + g->below(9));
      ttl::iota(l.begin(), l.end(), 3);
      if (ttl::accumulate(l.begin(), l.end(), 10) != std::accumulate(l.begin(), l.end(), 10) || l.back() != 2 + (int)l.size())
         fail(SEM, "result");
      if (ttl::accumulate(v.begin(), v.end(), std::string("x")) != std::accumulate(v.begin(), v.end(), std::string("x")))
         fail(SEM, "result", "of words");
   }
}

// A standard range whose references are objects, and iterators that adapt others
static void proxies()
{
   typedef std::vector<bool> B;
   size_t n = g->below(4) ? g->below(9) : g->below(140);
   B v(n), w(n);
   for (size_t i = 0; i < n; ++i)
   {
      v[i] = g->below(3) == 0;
      w[i] = g->below(3) == 0;
   }
   size_t k = g->below((unsigned)n + 1), q = k + g->below((unsigned)(n - k) + 1);
   bool x = g->below(2);
   B a(v), b(v), c(w), d(w);
#define AT(e) ((e) - a.begin())
#define BT(e) ((e) - b.begin())
#define SAME(what, l, r) { op("vector<bool>", " " what); long y = (long)(l), z = (long)(r); S->observations++; S->elem_checks += 2 * n; \
      if (y != z) fail(SEM, "result", "%ld, expected %ld: %s", y, z, what); if (a != b || c != d) fail(SEM, "content", what); }
   switch (g->below(6))
   {
   case 0:
      SAME("find", AT(ttl::find(a.begin(), a.end(), x)), BT(std::find(b.begin(), b.end(), x)));
      SAME("count", ttl::count(a.begin(), a.end(), x), std::count(b.begin(), b.end(), x));
      SAME("equal", ttl::equal(a.begin(), a.end(), c.begin()), std::equal(b.begin(), b.end(), d.begin()));
      SAME("mismatch", AT(ttl::mismatch(a.begin(), a.end(), c.begin()).first), BT(std::mismatch(b.begin(), b.end(), d.begin()).first));
      SAME("adjacent_find", AT(ttl::adjacent_find(a.begin(), a.end())), BT(std::adjacent_find(b.begin(), b.end())));
      SAME("search", AT(ttl::search(a.begin(), a.end(), c.begin() + k, c.begin() + q)), BT(std::search(b.begin(), b.end(), d.begin() + k, d.begin() + q)));
      SAME("search_n", AT(ttl::search_n(a.begin(), a.end(), 3, x)), BT(std::search_n(b.begin(), b.end(), 3, x)));
      SAME("min_element", AT(ttl::min_element(a.begin(), a.end())), BT(std::min_element(b.begin(), b.end())));
      SAME("max_element", AT(ttl::max_element(a.begin(), a.end())), BT(std::max_element(b.begin(), b.end())));
      SAME("is_sorted_until", AT(ttl::is_sorted_until(a.begin(), a.end())), BT(std::is_sorted_until(b.begin(), b.end())));
      SAME("accumulate", ttl::accumulate(a.begin(), a.end(), 5), std::accumulate(b.begin(), b.end(), 5));
      break;
   case 1:
      std::sort(a.begin(), a.end());
      std::sort(c.begin(), c.end());
      b = a;
      d = c;
      SAME("lower_bound", AT(ttl::lower_bound(a.begin(), a.end(), x)), BT(std::lower_bound(b.begin(), b.end(), x)));
      SAME("upper_bound", AT(ttl::upper_bound(a.begin(), a.end(), x)), BT(std::upper_bound(b.begin(), b.end(), x)));
      SAME("binary_search", ttl::binary_search(a.begin(), a.end(), x), std::binary_search(b.begin(), b.end(), x));
      {
         B e, f;
         SAME("merge", (ttl::merge(a.begin(), a.end(), c.begin(), c.end(), std::back_inserter(e)), 0), (std::merge(b.begin(), b.end(), d.begin(), d.end(), std::back_inserter(f)), 0));
         if (e != f)
            fail(SEM, "output", "of merge");
      }
      break;
   case 2:
      SAME("copy", ttl::copy(a.begin() + k, a.begin() + q, c.begin()) - c.begin(), std::copy(b.begin() + k, b.begin() + q, d.begin()) - d.begin());
      SAME("copy to the left", AT(ttl::copy(a.begin() + k, a.end(), a.begin())), BT(std::copy(b.begin() + k, b.end(), b.begin())));
      SAME("copy_n", ttl::copy_n(a.begin(), k, c.begin()) - c.begin(), std::copy_n(b.begin(), k, d.begin()) - d.begin());
      SAME("copy_backward", AT(ttl::copy_backward(a.begin(), a.begin() + k, a.end())), BT(std::copy_backward(b.begin(), b.begin() + k, b.end())));
      SAME("reverse_copy", ttl::reverse_copy(a.begin(), a.begin() + k, c.begin()) - c.begin(), std::reverse_copy(b.begin(), b.begin() + k, d.begin()) - d.begin());
      SAME("copy reversed", ttl::copy(a.rbegin(), a.rend(), c.begin()) - c.begin(), std::copy(b.rbegin(), b.rend(), d.begin()) - d.begin());
      break;
   case 3:
      SAME("fill", (ttl::fill(a.begin() + k, a.begin() + q, x), 0), (std::fill(b.begin() + k, b.begin() + q, x), 0));
      SAME("fill_n", ttl::fill_n(c.begin(), k, !x) - c.begin(), std::fill_n(d.begin(), k, !x) - d.begin());
      SAME("replace", (ttl::replace(c.begin() + k, c.end(), x, !x), 0), (std::replace(d.begin() + k, d.end(), x, !x), 0));
      SAME("replace_copy", ttl::replace_copy(a.begin(), a.end(), c.begin(), !x, x) - c.begin(), std::replace_copy(b.begin(), b.end(), d.begin(), !x, x) - d.begin());
      SAME("generate", (ttl::generate(a.begin(), a.end(), [&, i = 0]() mutable { return i++ % 3 == 0; }), 0), (std::generate(b.begin(), b.end(), [&, i = 0]() mutable { return i++ % 3 == 0; }), 0));
      SAME("transform", ttl::transform(a.begin(), a.end(), c.begin(), c.begin(), [](bool y, bool z) { return y != z; }) - c.begin(),
           std::transform(b.begin(), b.end(), d.begin(), d.begin(), [](bool y, bool z) { return y != z; }) - d.begin());
      break;
   case 4:
   {
      op("vector<bool>", " remove");
      a.erase(ttl::remove(a.begin(), a.end(), x), a.end());
      b.erase(std::remove(b.begin(), b.end(), x), b.end());
      SAME("remove_copy", ttl::remove_copy(v.begin(), v.end(), c.begin(), x) - c.begin(), std::remove_copy(v.begin(), v.end(), d.begin(), x) - d.begin());
      break;
   }
   default:
   {
      op("vector<bool>", " containers");
      ttl::vector<bool> z(v.begin(), v.end());
      ttl::list<bool> l(v.begin(), v.end());
      ttl::copy(z.begin(), z.end(), c.begin());
      a.clear();
      ttl::copy(l.begin(), l.end(), std::back_inserter(a));
      S->observations++;
      S->elem_checks += 2 * n;
      if (c != v || a != v)
         fail(SEM, "content", "of containers made of vector<bool>");
      // moved, element by element
      std::vector<std::unique_ptr<int> > m, o(n);
      for (size_t i = 0; i < n; ++i)
         m.push_back(std::unique_ptr<int>(new int((int)i)));
      op("move_iterator");
      ttl::copy(std::make_move_iterator(m.begin()), std::make_move_iterator(m.end()), o.begin());
      for (size_t i = 0; i < n; ++i)
         if (m[i] || !o[i] || *o[i] != (int)i)
            fail(SEM, "content", "element %zu moved by copy", i);
   }
   }
#undef SAME
#undef AT
#undef BT
   note_state(mix(mix(hstr("proxies"), n), mix(k, q)));
}

// A sequence container of the library, used in and with standard ones
template<class C, class T> static bool is(const C &c, const std::vector<T> &m)
{
   size_t n = 0;
   for (const T &x : c)
   {
      S->elem_checks++;
      if (n >= m.size() || !(x == m[n]))
         return false;
      ++n;
   }
   return n == m.size();
}
template<class C> struct Tn;
template<class T> struct Tn<ttl::vector<T> > { static const char *name() { return "vector"; } enum { ra = 1, front = 0, range = 1, list = 0, eq = 1 }; };
template<class T> struct Tn<ttl::fixed_vector<T, 200> > { static const char *name() { return "fixed_vector"; } enum { ra = 1, front = 0, range = 1, list = 0, eq = 1 }; };
template<class T> struct Tn<ttl::list<T> > { static const char *name() { return "list"; } enum { ra = 0, front = 1, range = 1, list = 1, eq = 1 }; };
template<class T> struct Tn<ttl::forward_list<T> > { static const char *name() { return "forward_list"; } enum { ra = 0, front = 1, range = 1, list = 0, eq = 1 }; };
template<class T> struct Tn<ttl::backward_list<T> > { static const char *name() { return "backward_list"; } enum { ra = 0, front = 1, range = 1, list = 0, eq = 1 }; };
template<class T> struct Tn<ttl::lazy_queue<T> > { static const char *name() { return "lazy_queue"; } enum { ra = 0, front = 1, range = 0, list = 0, eq = 0 }; };

template<class C> struct Seqs
{
   typedef typename C::value_type T;
   typedef std::vector<T> M;
   std::vector<C> c;    // moved about as elements of a standard vector
   std::vector<M> m;
   static const char *nm(const char *what)
   {
      static char b[90];
      snprintf(b, sizeof b, "%s of %s<%s>", what, Tn<C>::name(), Mk<T>::name());
      return b;
   }
   M some(unsigned n) { return Algo<std::vector<T> >::some(g->below(n), 6); }
   void push(C &x, const M &v)
   {
      for (const T &t : v)
         if constexpr (Tn<C>::front)
            x.push_front(t);
         else
            x.push_back(t);
   }
   void check()
   {
      uint64_t h = hstr(S->op);
      for (size_t i = 0; i < c.size(); ++i)
      {
         S->observations++;
         if (!is(c[i], m[i]))
            fail(SEM, "content", "container %zu of %zu differs", i, c.size());
         h = mix(h, m[i].size());
      }
      note_state(h);
   }
   void add(const M &v)
   {
      M r(v);
      if constexpr (Tn<C>::front)
         std::reverse(r.begin(), r.end());
      C x;
      push(x, r);
      c.push_back(x);
      m.push_back(v);
   }
   void step()
   {
      size_t n = c.size();
      size_t i = n ? g->below((unsigned)n) : 0, j = n ? g->below((unsigned)n) : 0;
      switch (n < 2 ? 0 : g->below(12))
      {
      case 0: case 1:
         op(nm("std::vector::push_back"));
         add(some(8));
         break;
      case 2:
         op(nm("std::vector::erase"));
         c.erase(c.begin() + i);
         m.erase(m.begin() + i);
         break;
      case 3:
         op(nm("std::swap"));
         std::swap(c[i], c[j]);
         std::swap(m[i], m[j]);
         check();
         op(nm("ttl::swap"));
         ttl::swap(c[i], c[j]);
         std::swap(m[i], m[j]);
         break;
      case 4:
         op(nm("std::vector::insert"));
         {
            C t(c[j]);
            M u(m[j]);
            c.insert(c.begin() + i, t);
            m.insert(m.begin() + i, u);
         }
         break;
      case 5:
      {
         op(nm("std::remove_if and std::copy"));
         size_t k = m[i].size();
         auto big = [k](const M &x) { return x.size() > k; };
         auto cbig = [k](const C &x) { size_t q = 0; for (auto z = x.begin(); z != x.end(); ++z) ++q; return q > k; };
         c.erase(std::remove_if(c.begin(), c.end(), cbig), c.end());
         m.erase(std::remove_if(m.begin(), m.end(), big), m.end());
         std::deque<C> dc(c.begin(), c.end());
         c.resize(c.size() + 1);
         m.resize(m.size() + 1);
         std::copy_backward(dc.begin(), dc.end(), c.end());
         std::copy_backward(m.begin(), m.end() - 1, m.end());
         break;
      }
      case 6:
         if constexpr (Tn<C>::eq)
         {
            op(nm("std::find"));
            size_t a = std::find(c.begin(), c.end(), c[j]) - c.begin(), b = std::find(m.begin(), m.end(), m[j]) - m.begin();
            if (a != b || (size_t)(ttl::find(c.begin(), c.end(), c[j]) - c.begin()) != b || ttl::count(c.begin(), c.end(), c[i]) != std::count(m.begin(), m.end(), m[i]))
               fail(SEM, "result", "%zu, expected %zu", a, b);
            if ((c[i] == c[j]) != (m[i] == m[j]) || (c[i] != c[j]) != (m[i] != m[j]))
               fail(SEM, "equality");
         }
         break;
      case 7:
         if constexpr (Tn<C>::ra)
         {
            op(nm("std::sort its elements"));
            std::sort(c[i].begin(), c[i].end());
            std::sort(m[i].begin(), m[i].end());
            T v = Mk<T>::make((int)g->below(6));
            if (ttl::lower_bound(c[i].begin(), c[i].end(), v) - c[i].begin() != std::lower_bound(m[i].begin(), m[i].end(), v) - m[i].begin())
               fail(SEM, "result");
            c[i].erase(std::remove(c[i].begin(), c[i].end(), v), c[i].end());
            m[i].erase(std::remove(m[i].begin(), m[i].end(), v), m[i].end());
         }
         if constexpr (Tn<C>::list)
         {
            op(nm("splice"));
            c[i].splice(c[i].begin(), c[j], c[j].begin(), c[j].begin());
         }
         break;
      case 8: case 9:
         if constexpr (Tn<C>::range)
         {
            M v = some(9);
            bool deq = g->below(2);
            op(nm(deq ? "assign from a deque" : "assign from a vector"));
            std::deque<T> d(v.begin(), v.end());
            if (deq)
               c[i].assign(d.begin(), d.end());
            else
               c[i].assign(v.begin(), v.end());
            m[i] = v;
            check();
            if constexpr (!Tn<C>::ra)
            {
               std::list<T> l(v.begin(), v.end());
               op(nm("constructor from a list"));
               C x(l.begin(), l.end());
               if (!is(x, v))
                  fail(SEM, "content");
               c[j] = x;
               m[j] = v;
            }
            else
            {
               op(nm("insert from a deque"));
               size_t at = g->below((unsigned)m[j].size() + 1);
               if (m[j].size() + d.size() < 190)
               {
                  c[j].insert(c[j].begin() + at, d.begin(), d.end());
                  m[j].insert(m[j].begin() + at, d.begin(), d.end());
               }
            }
         }
         break;
      case 10:
      {
         op(nm("std::map of"));
         std::map<int, C> t;
         for (int q = 0; q < 5; ++q)
            t[(int)g->below(4)] = c[g->below((unsigned)n)];
         t[2] = c[i];
         std::map<int, C> u(t);
         t.erase(1);
         t.clear();
         if (!is(u[2], m[i]) || !is(u[77], M()))
            fail(SEM, "content", "of a container in a standard map");
         break;
      }
      default:
      {
         op(nm("std::function with"));
         C x(c[i]);
         const M &y = m[i];
         std::function<bool()> f = [x, y] { return is(x, y); };
         std::function<bool()> h(f);
         x.clear();
         if (!h())
            fail(SEM, "content", "of a captured container");
         std::shared_ptr<C> sp = std::make_shared<C>(c[j]);
         if (!is(*sp, m[j]))
            fail(SEM, "content", "of a shared container");
         break;
      }
      }
      check();
   }
   void run(unsigned ops)
   {
      while (ops--)
         step();
   }
};

// The associative containers with standard keys, values and comparators
template<class S2, class K, class Cmp> static void sets(const char *name)
{
   typedef std::set<K, Cmp> M;
   S2 s;
   M m;
   for (int q = 0; q < 14; ++q)
   {
      std::vector<K> v = Algo<std::vector<K> >::some(g->below(6), 14);
      K k = Mk<K>::make((int)g->below(14));
      op(name);
      switch (g->below(5))
      {
      case 0: s.insert(v.begin(), v.end()); m.insert(v.begin(), v.end()); break;
      case 1: s.erase(k); m.erase(k); break;
      case 2: { S2 t(s); s.clear(); s = t; break; }
      case 3: { std::set<K> o(v.begin(), v.end()); s.insert(o.begin(), o.end()); m.insert(o.begin(), o.end()); break; }
      default: if (s.insert(k).second != m.insert(k).second) fail(SEM, "inserted-flag");
      }
      std::vector<K> x(m.begin(), m.end());
      S->observations++;
      if (!is(s, x))
         fail(SEM, "content", "not what a standard set holds");
      note_state(mix(mix(hstr(name), x.size()), m.count(k)));
      auto a = s.lower_bound(k);
      auto b = m.lower_bound(k);
      if ((a == s.end()) != (b == m.end()) || (b != m.end() && !(*a == *b)) || s.count(k) != m.count(k) || (s.find(k) == s.end()) != (m.find(k) == m.end()))
         fail(SEM, "lookup");
   }
}
template<class X> struct Ranged { enum { v = 0 }; };
template<class K, class T, class C> struct Ranged<ttl::map<K, T, C> > { enum { v = 1 }; };
template<class S2, class K, class T, class Cmp, bool SORTED> static void maps(const char *name)
{
   typedef std::map<K, T, Cmp> M;
   S2 s;
   M m;
   for (int q = 0; q < 14; ++q)
   {
      K k = Mk<K>::make((int)g->below(9));
      T v = Mk<T>::make((int)g->below(9));
      op(name);
      switch (g->below(5))
      {
      case 4: // what a standard map holds
         if constexpr (Ranged<S2>::v)
         {
            M o;
            for (unsigned z = g->below(5); z--;)
               o[Mk<K>::make((int)g->below(9))] = Mk<T>::make((int)g->below(9));
            s.insert(o.begin(), o.end());
            m.insert(o.begin(), o.end());
            const M &c = m;
            S2 t(c.begin(), c.end());
            if (!(t == s))
               fail(SEM, "content", "made of a standard map");
         }
         break;
      case 0: s[k] = v; m[k] = v; break;
      case 1: if (s.insert(typename S2::value_type(k, v)).second != m.insert(typename M::value_type(k, v)).second) fail(SEM, "inserted-flag"); break;
      case 2: { S2 t(s); if (!(s[k] == m[k])) fail(SEM, "content", "of []"); break; }
      default: { S2 *t = new S2(s); s.clear(); for (auto i = m.begin(); i != m.end(); ++i) s.insert(typename S2::value_type(i->first, t->find(i->first)->second)); delete t; }
      }
      S->observations++;
      size_t n = 0;
      auto b = m.begin();
      for (auto i = s.begin(); i != s.end(); ++i, ++n)
      {
         S->elem_checks++;
         if (SORTED ? b == m.end() || !(i->first == b->first) || !(i->second == b->second) : !m.count(i->first) || !(m[i->first] == i->second))
            fail(SEM, "content", "not what a standard map holds");
         ++b;
      }
      if (n != m.size() || (s.find(k) == s.end()) != (m.find(k) == m.end()))
         fail(SEM, "content", "%zu entries, expected %zu", n, m.size());
      note_state(mix(mix(hstr(name), n), m.count(k)));
   }
}

#if MON_PART
template<class T, size_t N> static void arrays()
{
   char name[64];
   snprintf(name, sizeof name, "array<%s>", Mk<T>::name());
   ttl::array<T, N> a, b;
   std::vector<T> ma(N), mb(N);
   for (size_t i = 0; i < N; ++i)
   {
      a[i] = ma[i] = Mk<T>::make((int)g->below(9));
      b[i] = mb[i] = Mk<T>::make((int)g->below(9));
   }
   for (int o = 0; o < 8; ++o)
   {
      size_t at = g->below(N);
      T x = Mk<T>::make((int)g->below(9));
      op(name);
      switch (g->below(8))
      {
      case 0: a.fill(x); ma.assign(N, x); break;
      case 1: a.swap(b); ma.swap(mb); break;
      case 2: b = a; mb = ma; break;
      case 3: a.at(at) = x; ma[at] = x; break;
      case 4: ttl::swap(a, b); ma.swap(mb); break;
      case 5: { ttl::array<T, N> c(b); a = c; ma = mb; break; }
      case 6: a.back() = x; ma.back() = x; break;
      default: ttl::fill(b.begin(), b.end(), x); mb.assign(N, x); break;
      }
      S->observations++;
      S->elem_checks += 2 * N;
      if ((a == b) != (ma == mb) || (a != b) == (ma == mb))
         fail(SEM, "equality", "of arrays");
      for (size_t i = 0; i < N; ++i)
         if (!(a[i] == ma[i]) || !(b.begin()[i] == mb[i]))
            fail(SEM, "content", "element %zu of an array", i);
      if (!(a.front() == ma.front()) || !(a.back() == ma.back()))
         fail(SEM, "content", "ends of an array");
      note_state(mix(hstr(name), o + 10 * (a == b)));
   }
}
template<class A, class B> static void pairs()
{
   char name[64];
   snprintf(name, sizeof name, "pair<%s,%s>", Mk<A>::name(), Mk<B>::name());
   A a1 = Mk<A>::make((int)g->below(5)), a2 = Mk<A>::make((int)g->below(5));
   B b1 = Mk<B>::make((int)g->below(5)), b2 = Mk<B>::make((int)g->below(5));
   op(name);
   ttl::pair<A, B> p(a1, b1), q = ttl::make_pair(a2, b2), r(p), s;
   bool eq = a1 == a2 && b1 == b2;
   S->observations++;
   S->elem_checks += 8;
   if ((p == q) != eq || (p != q) == eq || p != r)
      fail(SEM, "equality", "of pairs");
   s = q;
   switch (g->below(3))
   {
   case 0: p.swap(q); break;
   case 1: ttl::swap(p, q); break;
   default: q = p; p = s; break;
   }
   if (!(p.first == a2) || !(p.second == b2) || !(q.first == a1) || !(q.second == b1) || !(s.first == a2) || !(s.second == b2) || !(r.first == a1))
      fail(SEM, "content", "of pairs");
   if (!(ttl::min(a1, a2) == std::min(a1, a2)) || !(ttl::max(a1, a2) == std::max(a1, a2)))
      fail(SEM, "content", "of min and max");
   ttl::swap(a1, a2);
   if (!(p.first == a1) || !(q.first == a2))
      fail(SEM, "content", "of swap");
   note_state(mix(hstr(name), eq + 2 * (p == q)));
}
#endif

static void the_case(Rng &r, uint64_t c)
{
   g = &r;
   size_t blocks = H.n;
   {
      std::vector<std::shared_ptr<int> > pool(1);
      for (int i = 0; i < 6; ++i)
         pool.push_back(std::make_shared<int>(i));
      g_pool = &pool;
      typedef std::string Str;
      typedef std::shared_ptr<int> Sp;
      typedef std::vector<int> Vi;
      using host::Item;
#if MON_PART == 0
      switch (c % 11)
      {
      case 0: Algo<std::vector<Str> >().run(12); break;
      case 1: Algo<std::deque<Str> >().run(12); break;
      case 2: Algo<std::list<Str> >().run(12); break;
      case 3: Algo<std::forward_list<Str> >().run(12); break;
      case 4: Algo<std::vector<Vi> >().run(12); break;
      case 5: Algo<std::list<Vi> >().run(12); break;
      case 6: Algo<std::deque<Sp> >().run(12); break;
      case 7: Algo<std::vector<Item> >().run(12); break;
      case 8: streams(); break;
      case 9: for (int i = 0; i < 20; ++i) proxies(); break;
      default: Algo<host::Box>().run(12); break;
      }
#else
      switch (c % 18)
      {
      case 0: Seqs<ttl::vector<Str> >().run(20); break;
      case 1: Seqs<ttl::fixed_vector<Str, 200> >().run(12); break;
      case 2: Seqs<ttl::list<Str> >().run(20); break;
      case 3: Seqs<ttl::forward_list<Str> >().run(20); break;
      case 4: Seqs<ttl::backward_list<Str> >().run(20); break;
      case 5: Seqs<ttl::lazy_queue<Str> >().run(20); break;
      case 6: Seqs<ttl::vector<Sp> >().run(20); break;
      case 7: Seqs<ttl::list<Vi> >().run(20); break;
      case 8: Seqs<ttl::vector<Item> >().run(20); break;
      case 9: Seqs<ttl::fixed_vector<Item, 200> >().run(12); break;
      case 10: Seqs<ttl::list<Item> >().run(20); break;
      case 14: Seqs<ttl::forward_list<Item> >().run(20); break;
      case 15: Seqs<ttl::backward_list<Item> >().run(20); break;
      case 16: Seqs<ttl::lazy_queue<Item> >().run(20); break;
      case 17:
         arrays<Item, 5>(); arrays<Str, 3>(); arrays<Vi, 4>(); arrays<Sp, 2>();
         pairs<Item, Item>(); pairs<Str, Item>(); pairs<Vi, Str>(); pairs<Sp, Sp>();
         break;
      case 11:
         sets<ttl::set<Str>, Str, std::less<Str> >("set<string>");
         sets<ttl::set<Vi, std::greater<Vi> >, Vi, std::greater<Vi> >("set<vector<int>, greater>");
         sets<ttl::set<Sp, Mk<Sp>::L>, Sp, Mk<Sp>::L>("set<shared_ptr>");
         sets<ttl::set<Item>, Item, ttl::less<Item> >("set<Item>");
         break;
      case 12:
         maps<ttl::map<Str, Vi>, Str, Vi, std::less<Str>, true>("map<string, vector<int>>");
         maps<ttl::map<Vi, Sp, std::greater<Vi> >, Vi, Sp, std::greater<Vi>, true>("map<vector<int>, shared_ptr, greater>");
         maps<ttl::map<Sp, Item, Mk<Sp>::L>, Sp, Item, Mk<Sp>::L, true>("map<shared_ptr, Item>");
         break;
      default:
         maps<ttl::sorted_vector_map<Str, Sp>, Str, Sp, std::less<Str>, true>("sorted_vector_map<string, shared_ptr>");
         maps<ttl::sorted_vector_map<Item, Str, std::greater<Item> >, Item, Str, std::greater<Item>, true>("sorted_vector_map<Item, string, greater>");
         maps<ttl::vector_map<Str, Vi>, Str, Vi, std::less<Str>, false>("vector_map<string, vector<int>>");
         maps<ttl::vector_map<Item, Str>, Item, Str, std::less<Item>, false>("vector_map<Item, string>");
         break;
      }
#endif
      for (size_t i = 1; i < pool.size(); ++i)
         if (pool[i].use_count() != 1)
            fail(LIFE, "leaked-element", "%ld references remain of a shared element", pool[i].use_count() - 1);
   }
   if (H.n != blocks)
      fail(ALLOC, "leaked-block", "%zu blocks are not released", H.n - blocks);
}
int main(int argc, char **argv) { return run(argc, argv, MON_PART ? "std containers" : "std", the_case); }
