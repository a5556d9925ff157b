// Threads: distinct objects may be used, and one object read, from several threads
// at once without synchronisation.  Built with ThreadSanitizer; besides the races it
// reports, what every thread computed must be what it computes when run alone.
#define MON_NO_HEAP 1
#include "core_impl.hpp"
#include "ttl/ttl.hpp"
#include "ttl/numeric.hpp"
#include <thread>
#include <atomic>
#include <memory>
#include <sched.h>
using namespace mon;

// Called back by the library (elements and predicates), the threads use other
// objects with the same operations; the histories run alone do not.
static thread_local int t_meddle; // 0: never
static thread_local unsigned t_calls;
static void meddle();
static inline void called()
{
   if (t_meddle == 1 && ++t_calls % 29 == 0)
   {
      t_meddle = 2;
      meddle();
      t_meddle = 1;
   }
}

// An element which owns memory
struct Own
{
   int k;
   int *deep;
   Own(): k(0), deep(new int(0)) {}
   Own(int x): k(x), deep(new int(x * 3)) {}
   Own(const Own &o): k(o.k), deep(new int(*o.deep)) { called(); }
   Own &operator=(const Own &o)
   {
      k = o.k;
      *deep = *o.deep;
      called();
      return *this;
   }
   ~Own() { delete deep; }
   bool operator==(const Own &o) const { called(); return k == o.k && *deep == *o.deep; }
   bool operator!=(const Own &o) const { return !(*this == o); }
   bool operator<(const Own &o) const { called(); return k < o.k; }
   bool operator>(const Own &o) const { return k > o.k; }
   Own &operator++() { ++k; *deep += 3; return *this; }
};
static inline uint64_t val(int x) { return (uint32_t)x; }
static inline uint64_t val(const Own &o) { return (uint32_t)(o.k * 31 + *o.deep); }
template<class A, class B> static inline uint64_t val(const ttl::pair<A, B> &p) { return mix(val(p.first), val(p.second)); }

template<class C> static uint64_t digest(const C &c)
{
   uint64_t h = 17;
   for (typename C::const_iterator i = c.begin(), e = c.end(); i != e; ++i)
      h = mix(h, val(*i));
   return h;
}
static std::atomic<uint64_t> g_ticket;
enum { T = 4 };
static unsigned char g_order[1 << 14];

struct Who
{
   int id;      // negative: alone
   Rng r;
   uint64_t h, steps;
   uint64_t opn[64];
   Who(int i, uint64_t seed): id(i), r(seed), h(3), steps(0) { memset(opn, 0, sizeof opn); }
   void did(int o)
   {
      ++steps;
      ++opn[o];
      if (id < 0)
         return;
      uint64_t t = g_ticket.fetch_add(1, std::memory_order_relaxed);
      __atomic_store_n(&g_order[t % sizeof g_order], (unsigned char)id, __ATOMIC_RELAXED);
      // the injected delay is not part of the history
      if ((t * 2654435761u >> 7) % 23 == 0)
         sched_yield();
   }
   void put(uint64_t x) { h = mix(h, x); }
};

//
// Private objects
//
template<class C> static void seq(Who &w, int o)
{
   typedef typename C::value_type V;
   C c, d((typename C::size_type)3, V(5));
   for (int i = 0; i < 12; ++i)
      switch (w.r.below(8))
      {
      default: c.push_back(V(w.r.below(20))); break;
      case 3: if (!c.empty()) c.pop_back(); break;
      case 4: c.insert(c.begin(), V(w.r.below(20))); break;
      case 5: if (!c.empty()) c.erase(c.begin()); break;
      case 6: d = c; break;
      case 7: c.swap(d); break;
      }
   C e(c);
   w.put(digest(c));
   w.put(digest(d));
   w.put(e == c);
   e.resize(2);
   w.put(digest(e));
   w.did(o);
}
template<class C> static void fwd(Who &w, int o)
{
   typedef typename C::value_type V;
   C c, d;
   for (int i = 0; i < 12; ++i)
      switch (w.r.below(7))
      {
      default: c.push_front(V(w.r.below(20))); break;
      case 3: if (!c.empty()) c.pop_front(); break;
      case 4: c.insert_after(c.before_begin(), V(w.r.below(20))); break;
      case 5: if (!c.empty()) c.erase_after(c.before_begin()); break;
      case 6: d = c; break;
      }
   C e(c);
   w.put(digest(c));
   w.put(digest(d));
   w.put(digest(e));
   c.swap(e);
   w.put(digest(c));
   w.did(o);
}
template<class L> static void lists(Who &w, int o)
{
   typedef typename L::value_type V;
   L a, b;
   for (int i = 0; i < 10; ++i)
   {
      a.push_back(V(2 * i));
      b.push_front(V(w.r.below(30)));
   }
   a.splice(a.begin(), b, b.begin());
   w.put(digest(a));
   a.remove(V(w.r.below(20)));
   a.reverse();
   a.splice(a.end(), b);
   w.put(digest(a));
   w.put(digest(b));
   a.unique();
   w.put(digest(a));
   w.did(o);
}
template<class M> static void maps(Who &w, int o)
{
   M a;
   for (int i = 0; i < 25; ++i)
   {
      int k = w.r.below(30);
      switch (w.r.below(5))
      {
      case 0: a[k] = typename M::mapped_type(i); break;
      case 1: w.put(a.erase(k)); break;
      case 2: w.put(a.count(k)); break;
      default: w.put(a.insert(ttl::make_pair(k, typename M::mapped_type(i))).second); break;
      }
   }
   M b(a), c;
   c = b;
   b.clear();
   w.put(digest(a));
   w.put(digest(c));
   w.put(digest(b));
   w.did(o);
}
template<class K> static void sets(Who &w, int o)
{
   ttl::set<K> a;
   for (int i = 0; i < 25; ++i)
   {
      int k = w.r.below(30);
      switch (w.r.below(4))
      {
      case 1: w.put(a.erase(K(k))); break;
      case 2: w.put(a.count(K(k))); break;
      default: w.put(a.insert(K(k)).second); break;
      }
   }
   ttl::set<K> b(a);
   w.put(digest(b));
   w.put(a == b);
   w.did(o);
}
template<class V> static void flat(Who &w, int o)
{
   ttl::vector_map<int, V> a;
   ttl::sorted_vector_map<int, V> b;
   for (int i = 0; i < 20; ++i)
   {
      int k = w.r.below(15);
      if (w.r.below(2))
      {
         a[k] = V(i);
         b[k] = V(i);
      }
      else
      {
         w.put(a.insert(ttl::make_pair(k, V(i))).second);
         w.put(b.insert(ttl::make_pair(k, V(i))).second);
      }
   }
   ttl::vector_map<int, V> c(a);
   ttl::sorted_vector_map<int, V> d(b);
   w.put(digest(c));
   w.put(digest(d));
   w.did(o);
}
static void bits(Who &w, int o)
{
   ttl::bitset<130> a, b(w.r.next());
   for (int i = 0; i < 20; ++i)
      switch (w.r.below(5))
      {
      case 0: a.set(w.r.below(130)); break;
      case 1: a.flip(w.r.below(130)); break;
      case 2: a <<= w.r.below(70); break;
      case 3: a ^= b; break;
      case 4: b = ~a >> w.r.below(20); break;
      }
   w.put(a.count());
   w.put(b.count());
   for (int i = 0; i < 130; ++i)
      w.put(a[i] * 2 + b.test(i));
   w.did(o);
}
template<class V> static void algos(Who &w, int o)
{
   ttl::array<V, 16> a, b;
   for (int i = 0; i < 16; ++i)
      a[i] = b[i] = V(w.r.below(8));
   ttl::reverse(a.begin(), a.end());
   w.put(ttl::count(a.begin(), a.end(), V(3)));
   w.put(ttl::find(a.begin(), a.end(), V(5)) - a.begin());
   w.put(ttl::remove(a.begin(), a.end(), V(2)) - a.begin());
   ttl::replace(b.begin(), b.end(), V(1), V(9));
   w.put(digest(b));
   ttl::iota(a.begin(), a.end(), V(w.r.below(5)));
   w.put(ttl::lower_bound(a.begin(), a.end(), V(9)) - a.begin());
   ttl::array<V, 32> m;
   ttl::merge(a.begin(), a.end(), a.begin(), a.end(), m.begin());
   w.put(digest(m));
   w.put(ttl::max_element(b.begin(), b.end()) - b.begin());
   ttl::swap_ranges(a.begin(), a.end(), b.begin());
   a.swap(b);
   b.fill(V(4));
   w.put(a == b);
   w.put(digest(a));
   ttl::pair<V, V> p(a[0], a[1]), q(p);
   q.swap(p);
   ttl::swap(p, q);
   w.put(val(p));
   w.did(o);
}


// The rest of the members
template<class C, class L> static void seq_rest(Who &w, int o)
{
   typedef typename C::value_type V;
   L src;
   V own[5] = {V(w.r.below(9)), V(w.r.below(9)), V(w.r.below(9)), V(7), V(1)};
   for (int i = 0; i < 5; ++i)
      src.push_back(own[i]);
   C a(own, own + 5), b;
   b.assign(own + 1, own + 4);
   for (int i = 0; i < 12; ++i)
   {
      if (a.size() > 8)
         a.resize(4);
      size_t p = a.empty() ? 0 : w.r.below((unsigned)a.size());
      switch (w.r.below(12))
      {
      case 0: a.insert(a.begin() + p, (typename C::size_type)2, V(3)); break;
      case 1: a.insert(a.begin() + p, own, own + w.r.below(4)); break;
      case 2: a.insert(a.begin() + p, own[w.r.below(5)]); break;
      case 3: if (!a.empty()) a.insert(a.begin() + p, a[a.size() - 1]); break;
      case 4: a.erase(a.begin() + p, a.end()); break;
      case 5: a.assign((typename C::size_type)w.r.below(6), V(2)); break;
      case 6: a.assign(own, own + w.r.below(6)); break;
      case 7: a.resize(w.r.below(9), V(4)); break;
      case 8: a.resize(w.r.below(9)); break;
      case 9: a.clear(); break;
      case 10: if (!a.empty()) { a[p] = own[1]; a.at(p) = a.front(); a.back() = a[p]; *a.data() = V(6); } break;
      case 11: a.swap(b); w.put(a == b); w.put(a != b); break;
      }
      w.put(a.size() * 4 + a.empty());
      w.put(a.capacity() >= a.size());
      w.put(a.max_size() > 2);
   }
   const C &c = a;
   w.put(c.cend() - c.cbegin());
   if (!c.empty())
   {
      w.put(val(c.front())); w.put(val(c.back())); w.put(val(c.at(0))); w.put(val(c[0])); w.put(val(*c.data()));
   }
   w.put(digest(a));
   w.put(digest(b));
   w.did(o);
}
struct Third { template<class V> bool operator()(const V &v) const { called(); return val(v) % 3 == 0; } };
struct Near { template<class V> bool operator()(const V &a, const V &b) const { called(); return val(a) / 4 == val(b) / 4; } };
struct Back { template<class V> bool operator()(const V &a, const V &b) const { called(); return b < a; } };

template<class C> static void list_rest(Who &w, int o)
{
   typedef typename C::value_type V;
   V own[5] = {V(w.r.below(9)), V(w.r.below(9)), V(w.r.below(9)), V(7), V(1)};
   C a(own, own + 5), b, c(4, V(8));
   for (int i = 0; i < 14; ++i)
   {
      if (a.size() > 30)
         a.resize(4);
      typename C::iterator p = a.begin();
      for (int k = (int)w.r.below(3); k > 0 && p != a.end(); --k)
         p++;
      switch (w.r.below(17))
      {
      case 0: a.insert(p, (typename C::size_type)2, V(3)); break;
      case 1: a.insert(p, own, own + w.r.below(6)); break;
      case 2: w.put(val(*a.insert(p, own[w.r.below(5)]))); break;
      case 3: a.assign(own, own + w.r.below(6)); break;
      case 4: a.assign((typename C::size_type)w.r.below(6), V(2)); break;
      case 5: a.resize(w.r.below(9), V(4)); break;
      case 6: a.resize(w.r.below(9)); break;
      case 7: a.clear(); break;
      case 8: a.remove_if(Third()); break;
      case 9: a.unique(Near()); break;
      case 10: a.splice(p, b, b.begin(), b.end()); break;
      case 11: b.merge(c); break;
      case 12: b.reverse(); c.reverse(); b.merge(c, Back()); b.reverse(); break;
      case 13: c.assign(own, own + 1); c.push_front(V(0)); break;
      case 14: a.swap(b); w.put(a == b); w.put(a != b); break;
      case 15: if (!a.empty()) a.pop_front(); if (!a.empty()) a.erase(a.begin()); break;
      case 16: if (!a.empty()) { a.pop_back(); a.erase(a.begin(), a.begin()); } break;
      }
      w.put(a.size() * 4 + a.empty());
   }
   for (typename C::iterator i = a.end(); i != a.begin();)
      w.put(val(*--i));
   const C &k = a;
   for (typename C::const_iterator i = k.cend(); i != k.cbegin();)
   {
      i--;
      w.put(val(*i));
   }
   if (!k.empty())
   {
      w.put(val(k.front())); w.put(val(k.back()));
      a.front() = V(3);
      a.back() = V(4);
   }
   w.put(digest(a)); w.put(digest(b)); w.put(digest(c));
   w.did(o);
}
template<class C> static void fwd_rest(Who &w, int o, bool)
{
   typedef typename C::value_type V;
   V own[5] = {V(w.r.below(9)), V(w.r.below(9)), V(w.r.below(9)), V(7), V(1)};
   C a(3, V(6)), b;
   b.insert_after(b.before_begin(), own, own + 5);
   for (int i = 0; i < 12; ++i)
   {
      switch (w.r.below(7))
      {
      case 0: a.insert_after(a.before_begin(), (typename C::size_type)2, V(3)); break;
      case 1: a.insert_after(a.begin() == a.end() ? a.before_begin() : a.begin(), own, own + w.r.below(6)); break;
      case 2: w.put(val(*a.insert_after(a.before_begin(), own[w.r.below(5)]))); break;
      case 3: if (!a.empty()) a.erase_after(a.before_begin(), a.end()); break;
      case 4: a.clear(); break;
      case 5: a.swap(b); w.put(ttl::equal(a.begin(), a.end(), b.begin(), b.end())); break;
      case 6: if (!a.empty()) { a.pop_front(); a.erase_after(a.before_begin(), a.begin()); } break;
      }
      w.put(digest(a));
   }
   const C &k = a;
   typename C::const_iterator z = k.cbefore_begin();
   ++z;
   w.put((z == k.cend()) + 2 * (k.cbegin() == k.end()) + (k.before_begin() != k.begin()));
   if (!k.empty())
   {
      w.put(val(k.front()));
      a.front() = V(3);
   }
   w.put(digest(b));
   w.did(o);
}
template<class C> static void slist_rest(Who &w, int o)
{
   typedef typename C::value_type V;
   V own[5] = {V(w.r.below(9)), V(w.r.below(9)), V(w.r.below(9)), V(7), V(1)};
   C a(own, own + 5), b;
   a.reverse();
   w.put(digest(a));
   b.assign(own, own + 3);
   b.assign((typename C::size_type)w.r.below(6), V(2));
   w.put(a == b); w.put(a != b);
   b = a;
   b.reverse();
   w.put(digest(b));
   w.put(a == b);
   w.did(o);
}
static void tail_rest(Who &w, int o)
{
   ttl::lazy_queue<Own> q, z;
   ttl::backward_list<Own> b;
   ttl::forward_list<Own> f, g;
   for (int i = 0; i < 12; ++i)
   {
      switch (w.r.below(6))
      {
      case 0: q.push_back(Own(i)); b.push_back(Own(i)); f.push_front(Own(i)); break;
      case 1: if (!q.empty()) q.roll_head(); break;
      case 2: q.cleanup(); break;
      case 3: if (!q.empty()) q.pop_front(); if (!b.empty()) b.pop_front(); break;
      case 4: q.swap(z); b.push_front(Own(i)); break;
      case 5: g.push_front(Own(i)); f.splice_after(f.before_begin(), g); break;
      }
      if (!q.empty()) { w.put(val(q.front())); w.put(val(q.back())); w.put(q.before_end() == q.begin()); }
      if (!b.empty()) { w.put(val(b.front())); w.put(val(b.back())); w.put(b.before_end() == b.begin()); }
   }
   w.put(digest(q)); w.put(digest(z)); w.put(digest(b)); w.put(digest(f));
   w.did(o);
}
template<class I> static uint64_t where(I i, I e) { return i == e ? 1 : val(*i); }
template<class M> static void tree_queries(Who &w, M &m)
{
   for (int i = 0; i < 6; ++i)
   {
      int k = w.r.below(30);
      w.put(where(m.find(k), m.end()));
      w.put(where(m.lower_bound(k), m.end()));
      w.put(where(m.upper_bound(k), m.end()));
      w.put(where(m.equal_range(k).first, m.end()));
      w.put(where(m.equal_range(k).second, m.end()));
      w.put(m.count(k));
   }
   w.put(m.empty());
   w.put(m.max_size() > 5);
   // both ways
   auto i = m.begin();
   for (; i != m.end(); i++)
      w.put(val(*i));
   while (i != m.begin())
   {
      i--;
      w.put(val(*i));
   }
}
template<class M> static void map_rest(Who &w, int o)
{
   typedef typename M::mapped_type V;
   std::vector< ttl::pair<int, V> > src;
   for (int i = 0; i < 12; ++i)
      src.push_back(ttl::make_pair((int)w.r.below(30), V(i)));
   M a(src.begin(), src.end());
   a.insert(src.begin(), src.begin() + 3);
   tree_queries<M>(w, a);
   tree_queries<const M>(w, a);
   const M &c = a;
   int k = a.begin()->first;
   w.put(val(a.at(k))); w.put(val(c.at(k)));
   a.at(k) = V(5);
   M b(a);
   b[77] = V(1);
   w.put(a == b); w.put(a != b);
   a = b;
   w.put(a == b);
   w.put(where(c.cbegin(), c.cend()));
   w.put(digest(a));
   w.did(o);
}
static void set_rest(Who &w, int o)
{
   std::vector<int> src;
   for (int i = 0; i < 12; ++i)
      src.push_back((int)w.r.below(30));
   ttl::set<int> a(src.begin(), src.end()), b;
   b.insert(src.begin(), src.begin() + 5);
   tree_queries< ttl::set<int> >(w, a);
   tree_queries<const ttl::set<int> >(w, a);
   w.put(a == b); w.put(a != b);
   b = a;
   w.put(b == a);
   b.clear();
   w.put(digest(b));
   w.put(where(a.cbegin(), a.cend()));
   w.did(o);
}
static void flat_rest(Who &w, int o)
{
   ttl::sorted_vector_map<int, Own> a, p(4);
   ttl::vector_map<int, Own> v;
   for (int i = 0; i < 14; ++i)
   {
      int k = w.r.below(30);
      a[k] = Own(i);
      p.insert(ttl::make_pair(k, Own(i)));
      v[k] = Own(i);
      w.put(val(a.at(k))); w.put(val(v.at(k)));
   }
   const ttl::sorted_vector_map<int, Own> &c = a;
   const ttl::vector_map<int, Own> &cv = v;
   tree_queries< ttl::sorted_vector_map<int, Own> >(w, a);
   tree_queries<const ttl::sorted_vector_map<int, Own> >(w, a);
   w.put(a.size() + p.size() + v.size());
   for (int i = 0; i < 6; ++i)
   {
      int k = w.r.below(30);
      w.put(cv.count(k)); w.put(where(v.find(k), v.end())); w.put(where(cv.find(k), cv.end()));
   }
   w.put(val(c.at(c.begin()->first))); w.put(val(cv.at(cv.begin()->first)));
   w.put(a.key_comp()(1, 2) + a.value_comp()(*a.begin(), *a.begin()));
   p.clear();
   w.put(digest(p)); w.put(digest(a));
   w.did(o);
}
template<size_t N> static void bits_rest(Who &w, int o)
{
   char str[N + 1];
   for (size_t i = 0; i < N; ++i)
      str[i] = w.r.below(2) ? '1' : '0';
   str[N] = 0;
   ttl::bitset<N> a(str), b((unsigned long long)w.r.next()), c(str, N / 2), d;
   d = a;
   d[w.r.below(N)].flip();
   d[w.r.below(N)] = true;
   d.set(w.r.below(N), w.r.below(2));
   d.reset(w.r.below(N));
   w.put(a == d); w.put(a != d);
   d |= b; d &= c; d ^= a; d >>= w.r.below(N); d <<= w.r.below(9);
   d.flip();
   w.put(a.to_ulong()); w.put(b.to_ullong()); w.put(d.count());
   w.put((a & b).count()); w.put((a | c).count()); w.put((a ^ b).count());
   ttl::bitset<N + 31> e(a);
   e <<= 3;
   w.put(e.count());
   c = e;
   w.put(c.count());
   a.set(); b.reset();
   w.put(a.all() + 2 * b.none() + 4 * d.any());
   for (size_t i = 0; i < N; ++i)
      w.put(c[i] + 2 * d.test(i));
   w.did(o);
}
// Algorithms on a constant range and a private one
template<class V, class It> static void queries(Who &w, It b, It e, const V *sorted, int ns)
{
   V x(w.r.below(9)), y(w.r.below(20));
   V one[2] = {x, y};
   size_t n = e - b;
   w.put(ttl::all_of(b, e, Third()) + 2 * ttl::any_of(b, e, Third()) + 4 * ttl::none_of(b, e, Third()));
   w.put(ttl::find(b, e, x) - b); w.put(ttl::find_if(b, e, Third()) - b); w.put(ttl::find_if_not(b, e, Third()) - b);
   w.put(ttl::count(b, e, x)); w.put(ttl::count_if(b, e, Third()));
   w.put(ttl::equal(b, e, b)); w.put(ttl::equal(b, e, b, e)); w.put(ttl::equal(b, e, b, Near())); w.put(ttl::equal(b, e, b, e, Near()));
   w.put(ttl::mismatch(b, e, b).first - b); w.put(ttl::mismatch(b, e, b, e).first - b);
   w.put(ttl::mismatch(b, e, b, Near()).first - b); w.put(ttl::mismatch(b, e, b, e, Near()).first - b);
   w.put(ttl::search(b, e, one, one + 2) - b); w.put(ttl::search(b, e, one, one + 2, Near()) - b);
   w.put(ttl::search_n(b, e, 2, x) - b); w.put(ttl::search_n(b, e, 2, x, Near()) - b);
   w.put(ttl::adjacent_find(b, e) - b); w.put(ttl::adjacent_find(b, e, Near()) - b);
   uint64_t h = 1;
   ttl::for_each(b, e, [&](const V &v) { h = mix(h, val(v)); });
   w.put(h);
   if (n)
   {
      w.put(ttl::min_element(b, e) - b); w.put(ttl::max_element(b, e) - b); w.put(ttl::minmax_element(b, e).second - b);
   }
   w.put(val(ttl::min(x, y)) + val(ttl::max(x, y)) + val(ttl::minmax(x, y).first) + val(ttl::min(x, y, Back())) + val(ttl::max(x, y, Back())));
   w.put(ttl::is_sorted(b, e)); w.put(ttl::is_sorted_until(b, e) - b);
   const V *s = sorted, *t = sorted + ns;
   w.put(ttl::lower_bound(s, t, y) - s); w.put(ttl::upper_bound(s, t, y) - s); w.put(ttl::binary_search(s, t, y));
   w.put(ttl::equal_range(s, t, y).first - s); w.put(ttl::equal_range(s, t, y).second - s);
   struct Lt { bool operator()(const V &p, const V &q) const { return p < q; } } lt;
   w.put(ttl::lower_bound(s, t, y, lt) - s); w.put(ttl::upper_bound(s, t, y, lt) - s); w.put(ttl::binary_search(s, t, y, lt));
   w.put(ttl::equal_range(s, t, y, lt).first - s);
}
template<class V> static void modify(Who &w, const V *src, size_t n)
{
   std::vector<V> o(n * 2 + 1, V(0));
   V *b = o.data();
   struct Lt { bool operator()(const V &p, const V &q) const { return p < q; } };
   V x(w.r.below(9)), y(w.r.below(9));
   auto out = [&](const V *e) { for (const V *i = o.data(); i != e; ++i) w.put(val(*i)); };
   switch (w.r.below(21))
   {
   case 0: out(ttl::copy(src, src + n, b)); break;
   case 1: out(ttl::copy_n(src, n, b)); break;
   case 2: out(ttl::copy_if(src, src + n, b, Third())); break;
   case 3: ttl::copy_backward(src, src + n, b + n); out(b + n); break;
   case 4: out(ttl::remove_copy(src, src + n, b, x)); break;
   case 5: out(ttl::remove_copy_if(src, src + n, b, Third())); break;
   case 6: out(ttl::replace_copy(src, src + n, b, x, y)); break;
   case 7: out(ttl::replace_copy_if(src, src + n, b, Third(), y)); break;
   case 8: out(ttl::reverse_copy(src, src + n, b)); break;
   case 9: out(ttl::transform(src, src + n, b, [](const V &v) { return V(v == V(3) ? 4 : 5); })); break;
   case 10: out(ttl::transform(src, src + n, src, b, [](const V &v, const V &u) { return V(v < u ? 4 : 5); })); break;
   case 11: out(ttl::fill_n(b, n, x)); ttl::fill(b, b + n, y); out(b + n); break;
   case 12: { int g = 0; ttl::generate(b, b + n, [&] { return V(++g); }); out(b + n); out(ttl::generate_n(b, n, [&] { return V(++g); })); break; }
   case 13: ttl::copy(src, src + n, b); out(ttl::remove(b, b + n, x)); break;
   case 14: ttl::copy(src, src + n, b); out(ttl::remove_if(b, b + n, Third())); break;
   case 15: ttl::copy(src, src + n, b); ttl::replace(b, b + n, x, y); ttl::replace_if(b, b + n, Third(), x); out(b + n); break;
   case 16: ttl::copy(src, src + n, b); ttl::reverse(b, b + n); out(b + n); break;
   case 17: ttl::copy(src, src + n, b); ttl::swap_ranges(b, b + n, b + n); ttl::iter_swap(b, b + n); ttl::swap(b[0], b[n]); out(b + 2 * n); break;
   case 18: out(ttl::merge(src, src + n, src, src + n, b)); break;
   case 19: out(ttl::merge(src, src + n, src, src + n / 2, b)); break;
   case 20:
   {
      ttl::iota(b, b + n, V(w.r.below(5)));
      out(b + n);
      int ints[5] = {1, 2, (int)w.r.below(9), 4, 5};
      w.put(ttl::accumulate(ints, ints + 5, 7));
      const int *i = ints;
      ttl::advance(i, 3);
      w.put(*i + ttl::distance(ints + 0, ints + 5) + ttl_countof(ints));
      break;
   }
   }
}
static void vocabulary(Who &w, int o)
{
   ttl::array<Own, 5> a, b;
   a.fill(Own(w.r.below(9)));
   b = a;
   b[w.r.below(5)] = Own(3);
   const ttl::array<Own, 5> &c = b;
   w.put((a == b) + 2 * (a != b));
   w.put(val(c.front()) + val(c.back()) + val(c.at(2)) + val(a.at(1)) + val(*c.data()) + c.size() + c.empty());
   a.swap(b);
   w.put(digest(a));
   ttl::pair<int, Own> p(1, Own(2)), q;
   q = p;
   q.second = Own(w.r.below(4));
   w.put((p == q) + 2 * (p != q));
   ttl::swap(p, q);
   p.swap(q);
   w.put(val(p));
   ttl::pair<long, Own> l(p);
   l = q;
   w.put(val(l.second) + l.first);
   w.put(val(ttl::make_pair(Own(3), 4)));
   w.put(ttl::less<int>()(1, 2) + ttl::greater<int>()(1, 2) + ttl::equal_to<int>()(1, 1) + ttl::not_equal_to<int>()(1, 1));
   w.did(o);
}

//
// Objects all threads read
//
struct Shr
{
   ttl::vector<Own> v;
   ttl::fixed_vector<Own, 20> fv;
   ttl::list<Own> l;
   ttl::forward_list<Own> f;
   ttl::backward_list<Own> b;
   ttl::lazy_queue<Own> q;
   ttl::map<int, Own> m;
   ttl::set<int> s;
   ttl::vector_map<int, Own> vm;
   ttl::sorted_vector_map<int, Own> sm;
   ttl::bitset<130> bs;
   ttl::array<Own, 9> a;
   std::vector<Own> raw, sorted;
   explicit Shr(Rng &r)
   {
      int n = r.below(18);
      for (int i = 0; i < n; ++i)
      {
         Own x(r.below(30));
         v.push_back(x);
         fv.push_back(x);
         l.push_back(x);
         f.push_front(x);
         b.push_back(x);
         q.push_back(x);
         m[x.k] = x;
         s.insert(x.k);
         vm[x.k] = x;
         sm[x.k] = x;
         bs.set(r.below(130));
         a[i % 9] = x;
         raw.push_back(x);
         sorted.push_back(Own(i * 2));
      }
   }
};
template<class C> static void readmap(Who &w, const C &c)
{
   int k = w.r.below(32);
   w.put(c.count(k));
   w.put(c.empty());
   typename C::const_iterator i = c.find(k);
   w.put(i == c.end() ? 1 : val(*i));
   w.put(digest(c));
}
template<class C> static void readtree(Who &w, const C &c)
{
   int k = w.r.below(32);
   typename C::const_iterator i = c.lower_bound(k);
   w.put(i == c.end() ? 1 : val(*i));
   i = c.upper_bound(k);
   w.put(i == c.end() ? 1 : val(*i));
   w.put(c.equal_range(k).first == c.equal_range(k).second);
   C copy(c);
   w.put(digest(copy));
}
static void readers(Who &w, const Shr &s, int o)
{
   switch (w.r.below(17))
   {
   case 0:
   {
      w.put(digest(s.v)); w.put(s.v.size()); w.put(s.v.empty()); w.put(s.v.capacity() >= s.v.size());
      ttl::vector<Own> c(s.v);
      w.put(c == s.v);
      if (!s.v.empty())
      {
         w.put(val(s.v.front())); w.put(val(s.v.back())); w.put(val(s.v[s.v.size() / 2])); w.put(val(*s.v.data()));
         w.put(ttl::find(s.v.begin(), s.v.end(), Own(w.r.below(30))) - s.v.begin());
      }
      break;
   }
   case 1:
   {
      w.put(digest(s.fv)); w.put(s.fv.size()); w.put(s.fv.full());
      ttl::fixed_vector<Own, 20> c(s.fv);
      w.put(c == s.fv);
      break;
   }
   case 2:
   {
      w.put(digest(s.l)); w.put(s.l.size()); w.put(s.l.empty());
      ttl::list<Own> c(s.l);
      w.put(c == s.l);
      if (!s.l.empty())
      {
         w.put(val(s.l.front())); w.put(val(s.l.back()));
      }
      break;
   }
   case 3:
   {
      ttl::forward_list<Own> c(s.f);
      w.put(digest(s.f)); w.put(digest(c)); w.put(s.f.empty());
      break;
   }
   case 4:
   {
      ttl::backward_list<Own> c(s.b);
      w.put(digest(s.b)); w.put(digest(c)); w.put(s.b.empty());
      if (!s.b.empty())
         w.put(val(s.b.back()));
      break;
   }
   case 5:
   {
      ttl::lazy_queue<Own> c(s.q);
      w.put(digest(s.q)); w.put(digest(c)); w.put(s.q.empty());
      if (!s.q.empty())
         w.put(val(s.q.back()));
      break;
   }
   case 6: readmap(w, s.m); readtree(w, s.m); break;
   case 7: readmap(w, s.s); readtree(w, s.s); break;
   case 8:
   {
      readmap(w, s.vm);
      ttl::vector_map<int, Own> c(s.vm);
      w.put(digest(c));
      break;
   }
   case 9: readmap(w, s.sm); readtree(w, s.sm); break;
   case 10:
   {
      w.put(s.bs.count()); w.put(s.bs.any()); w.put(s.bs.none()); w.put(s.bs.all()); w.put(s.bs.test(w.r.below(140)));
      w.put(s.bs[w.r.below(130)]);
      ttl::bitset<130> c(s.bs);
      w.put(c == s.bs); w.put((c << 3).count()); w.put((~s.bs).count()); w.put((s.bs >> 5).count());
      w.put(digest(s.a)); w.put(val(s.a[3])); w.put(val(s.a.front())); w.put(ttl::max_element(s.a.begin(), s.a.end()) - s.a.begin());
      break;
   }
   case 11: queries<Own>(w, s.v.begin(), s.v.end(), s.sorted.data(), (int)s.sorted.size()); break;
   case 12: modify<Own>(w, s.sorted.data(), s.sorted.size()); break;
   case 13:
      w.put(s.v == s.v); w.put(s.v != s.v); w.put(s.fv == s.fv); w.put(s.l == s.l); w.put(s.l != s.l); w.put(s.f == s.f); w.put(s.f != s.f);
      w.put(s.b == s.b); w.put(s.b != s.b); w.put(s.m == s.m); w.put(s.m != s.m); w.put(s.s == s.s); w.put(s.s != s.s); w.put(s.bs != s.bs);
      w.put(s.a == s.a); w.put(s.a != s.a); w.put(s.fv != s.fv);
      break;
   case 14:
   {
      // the targets of assignments are private, the sources are not
      ttl::vector<Own> v(2, Own(1));
      v = s.v;
      v.insert(v.begin(), s.v.begin(), s.v.end());
      ttl::fixed_vector<Own, 20> fv;
      fv = s.fv;
      fv.insert(fv.begin(), s.fv.begin(), s.fv.end());
      ttl::list<Own> l;
      l = s.l;
      l.insert(l.begin(), s.l.begin(), s.l.end());
      ttl::forward_list<Own> f;
      f = s.f;
      f.assign(s.f.begin(), s.f.end());
      ttl::backward_list<Own> b;
      b = s.b;
      b.assign(s.b.begin(), s.b.end());
      ttl::lazy_queue<Own> q;
      q = s.q;
      q.insert_after(q.before_begin(), s.q.begin(), s.q.end());
      w.put(digest(v)); w.put(digest(fv)); w.put(digest(l)); w.put(digest(f)); w.put(digest(b)); w.put(digest(q));
      break;
   }
   case 15:
   {
      ttl::map<int, Own> m;
      m = s.m;
      m.insert(s.m.begin(), s.m.end());
      ttl::set<int> t;
      t = s.s;
      t.insert(s.s.begin(), s.s.end());
      w.put(digest(m)); w.put(digest(t));
      tree_queries<const ttl::map<int, Own> >(w, s.m);
      tree_queries<const ttl::set<int> >(w, s.s);
      tree_queries<const ttl::sorted_vector_map<int, Own> >(w, s.sm);
      break;
   }
   case 16:
   {
      for (ttl::list<Own>::const_iterator i = s.l.end(); i != s.l.begin();)
         w.put(val(*--i));
      if (!s.m.empty())
      {
         int k = s.m.begin()->first;
         w.put(val(s.m.at(k))); w.put(val(s.vm.at(k))); w.put(val(s.sm.at(k)));
         w.put(val(s.f.front())); w.put(val(s.b.front())); w.put(val(s.q.front())); w.put(val(s.fv.front())); w.put(val(s.fv.back()));
         w.put(val(*s.b.before_end())); w.put(val(*s.q.before_end()));
      }
      w.put(s.l.max_size() > 1); w.put(s.sm.size() + s.vm.size());
      w.put(s.bs.to_ulong() + s.bs.to_ullong());
      ttl::bitset<70> n(s.bs);
      w.put(n.count());
      w.put((s.bs & s.bs).count() + (s.bs | s.bs).count() + (s.bs ^ s.bs).count());
      break;
   }
   }
   w.did(o);
}
#ifndef MON_FREEZE // the rest is not for h_const.cpp
static const char *const names[] = {"vector<int>", "vector<Own>", "fixed_vector", "list<int>", "list<Own>", "forward_list", "backward_list", "lazy_queue",
   "list splice/remove", "map<int,int>", "map<int,Own>", "set", "vector_map+sorted_vector_map", "bitset", "algorithms<int>", "algorithms<Own>", "shared const objects",
   "vector<Own> rest", "fixed_vector rest", "list rest", "forward_list rest", "backward_list rest", "lazy_queue rest", "forward/backward list whole",
   "ends", "map rest", "set rest", "sorted_vector_map rest", "bitset rest", "queries", "modifying algorithms", "vocabulary"};
enum { NNAMES = sizeof names / sizeof *names };
static void steps(Who &w, const Shr &s, int n)
{
   while (n--)
   {
      int o = w.r.below(48);
      switch (o)
      {
      case 0: seq<ttl::vector<int> >(w, 0); break;
      case 1: seq<ttl::vector<Own> >(w, 1); break;
      case 2: seq<ttl::fixed_vector<Own, 8> >(w, 2); break;
      case 3: seq<ttl::list<int> >(w, 3); break;
      case 4: seq<ttl::list<Own> >(w, 4); break;
      case 5: fwd<ttl::forward_list<Own> >(w, 5); break;
      case 6: fwd<ttl::backward_list<Own> >(w, 6); break;
      case 7: fwd<ttl::lazy_queue<Own> >(w, 7); break;
      case 8: lists<ttl::list<Own> >(w, 8); break;
      case 9: maps<ttl::map<int, int> >(w, 9); break;
      case 10: maps<ttl::map<int, Own> >(w, 10); break;
      case 11: sets<Own>(w, 11); break;
      case 12: flat<Own>(w, 12); break;
      case 13: bits(w, 13); break;
      case 14: algos<int>(w, 14); break;
      case 15: algos<Own>(w, 15); break;
      case 16: seq_rest<ttl::vector<Own>, ttl::list<Own> >(w, 17); break;
      case 17: seq_rest<ttl::fixed_vector<Own, 16>, ttl::list<Own> >(w, 18); break;
      case 18: list_rest<ttl::list<Own> >(w, 19); break;
      case 19: fwd_rest<ttl::forward_list<Own> >(w, 20, true); break;
      case 20: fwd_rest<ttl::backward_list<Own> >(w, 21, true); break;
      case 21: fwd_rest<ttl::lazy_queue<Own> >(w, 22, false); break;
      case 22: slist_rest<ttl::forward_list<Own> >(w, 23); slist_rest<ttl::backward_list<Own> >(w, 23); break;
      case 23: tail_rest(w, 24); break;
      case 24: map_rest<ttl::map<int, Own> >(w, 25); break;
      case 25: set_rest(w, 26); break;
      case 26: flat_rest(w, 27); break;
      case 27: bits_rest<100>(w, 28); bits_rest<64>(w, 28); break;
      case 28: case 29:
      {
         Own a[9] = {Own(w.r.below(9)), Own(w.r.below(9)), Own(w.r.below(9)), Own(4), Own(4), Own(w.r.below(9)), Own(3), Own(3), Own(3)};
         queries<Own>(w, a, a + 9, a + 6, 3);
         w.did(29);
         break;
      }
      case 30: case 31: case 32: case 33:
      {
         Own a[5] = {Own(1), Own(w.r.below(9) + 1), Own(10), Own(11), Own(15)};
         modify<Own>(w, a, 5);
         w.did(30);
         break;
      }
      case 34: vocabulary(w, 31); break;
      default: readers(w, s, 16); break;
      }
   }
}

static void meddle()
{
   Who w(-1, t_calls);
   switch (t_calls / 29 % 24)
   {
   case 0: seq<ttl::vector<Own> >(w, 1); break;
   case 1: seq<ttl::fixed_vector<Own, 8> >(w, 2); break;
   case 2: seq<ttl::list<Own> >(w, 4); break;
   case 3: fwd<ttl::forward_list<Own> >(w, 5); break;
   case 4: fwd<ttl::backward_list<Own> >(w, 6); break;
   case 5: fwd<ttl::lazy_queue<Own> >(w, 7); break;
   case 6: lists<ttl::list<Own> >(w, 8); break;
   case 7: maps<ttl::map<int, Own> >(w, 10); break;
   case 8: sets<Own>(w, 11); break;
   case 9: flat<Own>(w, 12); break;
   case 10: algos<Own>(w, 15); break;
   case 11: seq_rest<ttl::vector<Own>, ttl::list<Own> >(w, 17); break;
   case 12: seq_rest<ttl::fixed_vector<Own, 16>, ttl::list<Own> >(w, 18); break;
   case 13: list_rest<ttl::list<Own> >(w, 19); break;
   case 14: fwd_rest<ttl::forward_list<Own> >(w, 20, true); break;
   case 15: fwd_rest<ttl::backward_list<Own> >(w, 21, true); break;
   case 16: fwd_rest<ttl::lazy_queue<Own> >(w, 22, false); break;
   case 17: slist_rest<ttl::forward_list<Own> >(w, 23); slist_rest<ttl::backward_list<Own> >(w, 23); break;
   case 18: tail_rest(w, 24); break;
   case 19: map_rest<ttl::map<int, Own> >(w, 25); break;
   case 20: flat_rest(w, 27); break;
   case 21: vocabulary(w, 31); break;
   case 22:
   {
      Own a[9] = {Own(1), Own(2), Own(w.r.below(9)), Own(4), Own(4), Own(w.r.below(9)), Own(3), Own(3), Own(3)};
      queries<Own>(w, a, a + 9, a + 6, 3);
      queries<Own>(w, (const Own *)a, (const Own *)a + 9, a + 6, 3);
      break;
   }
   default:
   {
      Own a[5] = {Own(1), Own(w.r.below(9) + 1), Own(10), Own(11), Own(15)};
      for (int i = 0; i < 5; ++i)
         modify<Own>(w, a, 5);
   }
   }
}

static void the_case(Rng &r, uint64_t)
{
   Shr sh(r);
   uint64_t seed[T];
   // half of the time, all threads do the same to their own objects
   uint64_t one = r.next();
   bool same = r.below(2);
   for (int i = 0; i < T; ++i)
      seed[i] = same ? one : r.next();
   const int n = 30;
   op("threads", " %d x %d steps%s", (int)T, n, same ? ", the same in all" : "");
   g_ticket = 0;
   std::atomic<int> ready(0);
   std::vector<std::unique_ptr<Who> > w;
   std::vector<std::thread> t;
   for (int i = 0; i < T; ++i)
      w.emplace_back(new Who(i, seed[i]));
   for (int i = 0; i < T; ++i)
   {
      Who *me = w[i].get();
      t.emplace_back([&ready, &sh, me, n]
      {
         ready.fetch_add(1, std::memory_order_relaxed);
         while (ready.load(std::memory_order_relaxed) < T)
            sched_yield();
         t_meddle = 1;
         t_calls = (unsigned)me->id * 1000;
         steps(*me, sh, n);
      });
   }
   for (int i = 0; i < T; ++i)
      t[i].join();
   uint64_t order = 5;
   uint64_t switches = 0;
   for (uint64_t i = 0; i < g_ticket && i < sizeof g_order; ++i)
   {
      order = mix(order, g_order[i]);
      if (i && g_order[i] != g_order[i - 1])
         ++switches;
   }
   S->iter_steps += switches;
   note_state(order);
   for (int i = 0; i < T; ++i)
   {
      Who alone(-1, seed[i]);
      steps(alone, sh, n);
      S->observations++;
      S->elem_checks += alone.steps;
      S->disc_events += w[i]->steps;
      if (alone.h != w[i]->h || alone.steps != w[i]->steps)
      {
         op("threads", " thread %d", i);
         fail(SEM, "interference", "thread %d computed something else than it does alone", i);
      }
      for (int k = 0; k < NNAMES; ++k)
         for (uint64_t x = 0; x < w[i]->opn[k]; ++x)
         {
            // counts only
            uint64_t ops = S->op_no;
            op(names[k]);
            S->op_no = ops;
         }
   }
}
int main(int argc, char **argv) { return run(argc, argv, "threads", the_case); }
#endif
