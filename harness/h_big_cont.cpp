// Containers with more elements than fit the narrower integer types: each
// operation is compared with a standard container over the full contents.
// Profiles: the name of the container.
#include "core_impl.hpp"
#include "ttl/vector.hpp"
#include "ttl/fixed_vector.hpp"
#include "ttl/list.hpp"
#include "ttl/forward_list.hpp"
#include "ttl/backward_list.hpp"
#include "ttl/lazy_queue.hpp"
#include "ttl/map.hpp"
#include "ttl/set.hpp"
#include "ttl/vector_map.hpp"
#include "ttl/sorted_vector_map.hpp"
#include "ttl/bitset.hpp"
#include "ttl/algorithm.hpp"
#include <algorithm>
#include <vector>
#include <type_traits>

using namespace mon;

static const size_t SIZES[] = {127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 4097, 32766, 32767, 32768, 32769, 40000,
                               65534, 65535, 65536, 65537, 70000};
enum { NSIZES = sizeof SIZES / sizeof *SIZES };

struct Rec
{
   int k;
   unsigned t;
   Rec(): k(0), t(0) {}
   Rec(int kk, unsigned tt): k(kk), t(tt) {}
   bool operator==(const Rec &o) const { return k == o.k; }
   bool operator!=(const Rec &o) const { return k != o.k; }
   bool operator<(const Rec &o) const { return k < o.k; }
};
inline bool same(const Rec &a, const Rec &b) { return a.k == b.k && a.t == b.t; }
inline bool same(const Tr &a, const Tr &b)
{
   a.use("observe");
   return a.k == b.k && a.tg == b.tg;
}
inline bool same(int a, int b) { return a == b; }
inline int kof(const Rec &a) { return a.k; }
inline int kof(const Tr &a) { return a.k; }
inline int kof(int a) { return a; }
template<class T> inline T mk(int k, unsigned) { return (T)k; }
template<> inline Rec mk<Rec>(int k, unsigned t) { return Rec(k, t); }
template<> inline Tr mk<Tr>(int k, unsigned t) { return Tr(k, t); }
struct Is { int v; template<class T> bool operator()(const T &x) const { return kof(x) == v; } };

static size_t pick(Rng &r, size_t most)
{
   size_t n;
   do
      n = SIZES[r.below(NSIZES)];
   while (n > most);
   S->large_cases++;
   if (n > S->max_size)
      S->max_size = n;
   return n;
}
// a position in [0, n)
static size_t place(Rng &r, size_t n)
{
   size_t c[] = {0, 1, n - 1, n / 2, 254, 255, 256, 257, 32767, 32768, 65535, 65536, r.below((unsigned)n)};
   return c[r.below(13)] % n;
}
static void yields(bool got, bool expect)
{
   S->observations++;
   if (got != expect)
      fail(SEM, "result", "yields %d, expected %d", (int)got, (int)expect);
}
template<class A, class B> static void yields_n(A got, B expect)
{
   S->observations++;
   if ((size_t)got != (size_t)expect)
      fail(SEM, "result", "yields %zu, expected %zu", (size_t)got, (size_t)expect);
}

// entries in the order of their keys
struct Flat: std::vector< std::pair<int, unsigned> >
{
   static bool less(const value_type &a, const value_type &b) { return a.first < b.first; }
   const_iterator lower_bound(int key) const { return std::lower_bound(begin(), end(), value_type(key, 0), less); }
   const_iterator upper_bound(int key) const { return std::upper_bound(begin(), end(), value_type(key, 0), less); }
   const_iterator find(int key) const
   {
      const_iterator i = lower_bound(key);
      return i != end() && i->first == key ? i : end();
   }
   size_t count(int key) const { return find(key) != end(); }
   void drop(std::vector<int> keys)
   {
      std::sort(keys.begin(), keys.end());
      Flat left;
      for (const_iterator i = begin(); i != end(); ++i)
         if (!std::binary_search(keys.begin(), keys.end(), i->first))
            left.push_back(*i);
      swap(left);
   }
};

template<class C> struct has_size { enum { V = 0 }; };
template<class T> struct has_size< ttl::vector<T> > { enum { V = 1 }; };
template<class T, unsigned N> struct has_size< ttl::fixed_vector<T, N> > { enum { V = 1 }; };
template<class T> struct has_size< ttl::list<T> > { enum { V = 1 }; };

template<class T> struct Work
{
   Rng &r;
   unsigned tag;
   size_t n;
   explicit Work(Rng &rr, size_t most): r(rr), tag(0), n(pick(rr, most)) {}
   typedef std::vector<T> M;

   T fresh() { return mk<T>((int)r.below(r.below(3) ? 3 : 5000), ++tag); }
   M some(size_t k)
   {
      M m;
      for (size_t i = 0; i < k; ++i)
         m.push_back(fresh());
      return m;
   }
   template<class C> void check(const C &c, const M &m)
   {
      size_t i = 0;
      typename C::const_iterator it = c.begin(), e = c.end();
      for (; i < m.size() && it != e; ++i, ++it)
         if (!same(*it, m[i]))
            fail(SEM, "contents", "element %zu of %zu is %d, expected %d", i, m.size(), kof(*it), kof(m[i]));
      if (it != e || i != m.size())
         fail(SEM, "length", "the contents %s after %zu elements, expected %zu", i == m.size() ? "go on" : "end", i, m.size());
      if constexpr (has_size<C>::V)
         if (c.size() != m.size())
            fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c.size(), m.size());
      if (c.empty() != m.empty())
         fail(SEM, "empty");
      S->observations++;
      S->elem_checks += m.size();
      note_state(mix(mix(hstr(S->op), m.size()), m.empty() ? 0 : kof(m.back()) + 7 * kof(m.front())));
   }

   void vec()
   {
      typedef ttl::vector<T> C;
      M m = some(n);
      op("vector(first,last)", " n=%zu", n);
      C c = lib([&]{ return C(m.data(), m.data() + n); });
      check(c, m);
      for (int q = 0; q < 6; ++q)
      {
         size_t k = place(r, n) + 1, p = m.empty() ? 0 : place(r, m.size());
         T x = fresh();
         const T *was_data = c.data();
         size_t was_cap = c.capacity();
         bool keeps = true;
         switch (r.below(11))
         {
         case 0:
            op("insert(pos,n,x)", " %zu at %zu of %zu", k, p, m.size());
            yields_n(lib([&]{ return c.insert(c.begin() + p, k, x); }) - c.begin(), p);
            m.insert(m.begin() + p, k, x);
            break;
         case 1:
         {
            M s = some(k);
            op("insert(pos,first,last)", " %zu at %zu of %zu", k, p, m.size());
            yields_n(lib([&]{ return c.insert(c.begin() + p, s.data(), s.data() + k); }) - c.begin(), p);
            m.insert(m.begin() + p, s.begin(), s.end());
            break;
         }
         case 2:
         {
            size_t l = p + r.below((unsigned)(m.size() - p + 1));
            op("erase(first,last)", " [%zu,%zu) of %zu", p, l, m.size());
            yields_n(lib([&]{ return c.erase(c.begin() + p, c.begin() + l); }) - c.begin(), p);
            m.erase(m.begin() + p, m.begin() + l);
            break;
         }
         case 3:
            op("resize(n,x)", " %zu to %zu", m.size(), k);
            lib([&]{ c.resize(k, x); return 0; });
            m.resize(k, x);
            break;
         case 4:
            op("resize(n)", " %zu to %zu", m.size(), k);
            lib([&]{ c.resize(k); return 0; });
            m.resize(k);
            break;
         case 5:
            keeps = false;
            op("assign(n,x)", " %zu", k);
            lib([&]{ c.assign(k, x); return 0; });
            m.assign(k, x);
            break;
         case 6:
         {
            M s = some(k);
            keeps = false;
            op("assign(first,last)", " %zu over %zu", k, m.size());
            lib([&]{ c.assign(s.data(), s.data() + k); return 0; });
            m = s;
            break;
         }
         case 7:
            keeps = k <= was_cap;
            op("reserve", " %zu", k);
            lib([&]{ c.reserve(k); return 0; });
            if (c.capacity() < k || c.capacity() < m.size())
               fail(SEM, "capacity", "%zu after reserve(%zu) with %zu elements", (size_t)c.capacity(), k, m.size());
            break;
         case 8:
         {
            op("vector(vector)", " %zu", m.size());
            C d = lib([&]{ return C(c); });
            check(d, m);
            op("==");
            yields(lib([&]{ return d == c && !(d != c); }), true);
            if (!m.empty())
            {
               d[p] = mk<T>(kof(m[p]) + 1, ++tag);
               op("==", " differ at %zu of %zu", p, m.size());
               yields(lib([&]{ return d == c || !(d != c); }), false);
               M dm(m);
               dm[p] = d[p];
               op("swap");
               keeps = false;
               lib([&]{ c.swap(d); return 0; });
               check(d, m);
               m = dm;
            }
            break;
         }
         case 9:
         {
            size_t was = r.below(600);
            C d = lib([&]{ return C(was, x); });
            op("operator=", " %zu over %zu", m.size(), (size_t)d.size());
            lib([&]{ d = c; return 0; });
            check(d, m);
            break;
         }
         default:
            op("push_back/insert", " at %zu", p);
            lib([&]{ c.push_back(x); return 0; });
            m.push_back(x);
            x = fresh();
            lib([&]{ c.insert(c.begin() + p, x); return 0; });
            m.insert(m.begin() + p, x);
         }
         check(c, m);
         if (keeps && m.size() <= was_cap)
         {
            S->stab_checks++;
            if (c.data() != was_data)
               fail(STAB, "moved", "the elements moved although %zu of them fit the capacity of %zu", m.size(), was_cap);
         }
         for (int i = 0; i < 4 && !m.empty(); ++i)
         {
            size_t at = place(r, m.size());
            if (!same(c[at], m[at]) || &c.at(at) != c.data() + at || &c.back() != c.data() + m.size() - 1)
               fail(SEM, "[]", "element %zu of %zu", at, m.size());
         }
      }
   }
   template<unsigned N> void fixed()
   {
      typedef ttl::fixed_vector<T, N> C;
      S->large_cases++;
      if (S->max_size < N)
         S->max_size = N;
      void *one = ::operator new(sizeof(C)), *two = ::operator new(sizeof(C));
      memset(one, 0x5a, sizeof(C));
      memset(two, 0xa5, sizeof(C));
      size_t k0 = place(r, N) + 1;
      M m = some(k0);
      op("fixed_vector(first,last)", " %zu of %u", k0, N);
      C *c = lib([&]{ return new(one) C(m.data(), m.data() + k0); });
      check(*c, m);
      for (int q = 0; q < 6; ++q)
      {
         size_t k = place(r, N) + 1, p = m.empty() ? 0 : place(r, m.size());
         T x = fresh();
         switch (r.below(9))
         {
         case 0:
            op("insert(pos,n,x)", " %zu at %zu of %zu of %u", k, p, m.size(), N);
            yields_n(lib([&]{ return c->insert(c->begin() + p, k, x); }) - c->begin(), p);
            m.insert(m.begin() + p, k, x);
            break;
         case 1:
         {
            M s = some(k);
            op("insert(pos,first,last)", " %zu at %zu of %zu of %u", k, p, m.size(), N);
            yields_n(lib([&]{ return c->insert(c->begin() + p, s.data(), s.data() + k); }) - c->begin(), p);
            m.insert(m.begin() + p, s.begin(), s.end());
            break;
         }
         case 2:
         {
            size_t l = p + r.below((unsigned)(m.size() - p + 1));
            op("erase(first,last)", " [%zu,%zu) of %zu", p, l, m.size());
            yields_n(lib([&]{ return c->erase(c->begin() + p, c->begin() + l); }) - c->begin(), p);
            m.erase(m.begin() + p, m.begin() + l);
            break;
         }
         case 3:
         {
            size_t to = r.below(3) ? k : N + k;
            op("resize(n,x)", " %zu to %zu of %u", m.size(), to, N);
            lib([&]{ c->resize(to, x); return 0; });
            m.resize(to, x);
            break;
         }
         case 4:
         {
            size_t to = r.below(3) ? k : N + k;
            op("resize(n)", " %zu to %zu of %u", m.size(), to, N);
            lib([&]{ c->resize(to); return 0; });
            m.resize(to);
            break;
         }
         case 5:
            op("assign(n,x)", " %zu", k);
            lib([&]{ c->assign(k, x); return 0; });
            m.assign(k, x);
            break;
         case 6:
         {
            M s = some(N + (r.below(2) ? 0 : k));
            op("assign(first,last)", " %zu", s.size());
            lib([&]{ c->assign(s.data(), s.data() + s.size()); return 0; });
            m = s;
            break;
         }
         case 7:
         {
            M s = some(k);
            op("fixed_vector::swap", " %zu and %zu of %u", m.size(), k, N);
            C *d = lib([&]{ return new(two) C(s.data(), s.data() + k); });
            lib([&]{ c->swap(*d); return 0; });
            check(*d, m);
            lib([&]{ d->~C(); return 0; });
            m = s;
            break;
         }
         default:
         {
            op("fixed_vector(fixed_vector)", " %zu of %u", m.size(), N);
            C *d = lib([&]{ return new(two) C(*c); });
            check(*d, m);
            op("==");
            yields(lib([&]{ return *d == *c && !(*d != *c); }), true);
            lib([&]{ d->clear(); return 0; });
            lib([&]{ *d = *c; return 0; });
            check(*d, m);
            if (!m.empty())
            {
               (*d)[p] = mk<T>(kof(m[p]) + 1, ++tag);
               op("==", " differ at %zu of %zu", p, m.size());
               yields(lib([&]{ return *d == *c || !(*d != *c); }), false);
            }
            lib([&]{ d->~C(); return 0; });
         }
         }
         if (m.size() > N)
            m.resize(N);
         check(*c, m);
         if (c->full() != (m.size() == N) || c->capacity() != N || c->max_size() != N)
            fail(SEM, "capacity");
      }
      lib([&]{ c->~C(); return 0; });
      ::operator delete(one);
      ::operator delete(two);
   }
   static bool lt(const T &a, const T &b) { return kof(a) < kof(b); }
   static bool eq(const T &a, const T &b) { return kof(a) == kof(b); }

   void lst()
   {
      typedef ttl::list<T> C;
      M m = some(n);
      op("list(first,last)", " n=%zu", n);
      C c = lib([&]{ return C(m.data(), m.data() + n); });
      check(c, m);
      for (int q = 0; q < 5; ++q)
      {
         size_t k = place(r, n) + 1, p = m.empty() ? 0 : place(r, m.size());
         typename C::iterator at = c.begin();
         for (size_t i = 0; i < p; ++i)
            ++at;
         T x = fresh();
         switch (r.below(10))
         {
         case 0:
            op("insert(pos,n,x)", " %zu at %zu of %zu", k, p, m.size());
            lib([&]{ c.insert(at, k, x); return 0; });
            m.insert(m.begin() + p, k, x);
            break;
         case 1:
         {
            M s = some(k);
            op("splice", " %zu at %zu of %zu", k, p, m.size());
            C d = lib([&]{ return C(s.data(), s.data() + k); });
            lib([&]{ c.splice(at, d); return 0; });
            m.insert(m.begin() + p, s.begin(), s.end());
            check(d, M());
            break;
         }
         case 2:
         {
            op("resize(n,x)", " %zu to %zu", m.size(), k);
            lib([&]{ c.resize(k, x); return 0; });
            m.resize(k, x);
            break;
         }
         case 3:
            op("resize(n)", " %zu to %zu", m.size(), k);
            lib([&]{ c.resize(k); return 0; });
            m.resize(k);
            break;
         case 4:
            op("reverse", " %zu", m.size());
            lib([&]{ c.reverse(); return 0; });
            std::reverse(m.begin(), m.end());
            break;
         case 5:
            op("remove", " from %zu", m.size());
            lib([&]{ c.remove(x); return 0; });
            m.erase(std::remove_if(m.begin(), m.end(), Is{kof(x)}), m.end());
            break;
         case 6:
            op("unique", " %zu", m.size());
            lib([&]{ c.unique(); return 0; });
            m.erase(std::unique(m.begin(), m.end(), eq), m.end());
            break;
         case 7:
         {
            M s = some(k), e;
            std::stable_sort(s.begin(), s.end(), lt);
            std::stable_sort(m.begin(), m.end(), lt);
            lib([&]{ c.assign(m.data(), m.data() + m.size()); return 0; });
            C d = lib([&]{ return C(s.data(), s.data() + k); });
            op("merge", " %zu and %zu", m.size(), k);
            lib([&]{ c.merge(d); return 0; });
            std::merge(m.begin(), m.end(), s.begin(), s.end(), std::back_inserter(e), lt);
            m = e;
            check(d, M());
            break;
         }
         case 8:
         {
            op("list(list)", " %zu", m.size());
            C d = lib([&]{ return C(c); });
            check(d, m);
            op("==");
            yields(lib([&]{ return d == c && !(d != c); }), true);
            lib([&]{ d.push_back(x); return 0; });
            op("==");
            yields(lib([&]{ return d == c || !(d != c); }), false);
            op("swap");
            lib([&]{ c.swap(d); return 0; });
            check(d, m);
            m.push_back(x);
            break;
         }
         default:
            op("assign(n,x)", " %zu", k);
            lib([&]{ c.assign(k, x); return 0; });
            m.assign(k, x);
         }
         check(c, m);
      }
   }
   // forward_list, backward_list, lazy_queue
   template<class C, bool TAIL, bool FULL> void slst()
   {
      M m = some(n);
      op("insert_after(pos,first,last)", " n=%zu", n);
      C c;
      lib([&]{ c.insert_after(c.before_begin(), m.data(), m.data() + n); return 0; });
      check(c, m);
      for (int q = 0; q < 5; ++q)
      {
         size_t k = place(r, n) + 1, p = m.empty() ? 0 : place(r, m.size());
         typename C::iterator at = c.before_begin();
         for (size_t i = 0; i < p; ++i)
            ++at;
         T x = fresh();
         switch (r.below(FULL ? 10 : 4))
         {
         case 0:
            op("insert_after(pos,n,x)", " %zu at %zu of %zu", k, p, m.size());
            lib([&]{ c.insert_after(at, k, x); return 0; });
            m.insert(m.begin() + p, k, x);
            break;
         case 1:
         {
            size_t l = p + r.below((unsigned)(m.size() - p + 1));
            typename C::iterator e = at;
            ++e;
            for (size_t i = p; i < l; ++i)
               ++e;
            op("erase_after(first,last)", " [%zu,%zu) of %zu", p, l, m.size());
            lib([&]{ c.erase_after(at, e); return 0; });
            m.erase(m.begin() + p, m.begin() + l);
            break;
         }
         case 2:
         {
            op("copy", " %zu", m.size());
            C d = lib([&]{ return C(c); });
            check(d, m);
            op("==");
            yields(lib([&]{ return ttl::equal(d.begin(), d.end(), c.begin(), c.end()); }), true);
            lib([&]{ d.push_front(x); return 0; });
            op("swap");
            lib([&]{ c.swap(d); return 0; });
            check(d, m);
            op("operator=", " %zu", m.size());
            lib([&]{ d = c; return 0; });
            m.insert(m.begin(), x);
            check(d, m);
            break;
         }
         case 3:
            op("push_back/pop_front", " %zu", m.size());
            for (int i = 0; i < 300; ++i)
            {
               if (!m.empty() && r.below(3))
               {
                  lib([&]{ c.pop_front(); return 0; });
                  m.erase(m.begin());
               }
               T y = fresh();
               if constexpr (TAIL)
               {
                  lib([&]{ c.push_back(y); return 0; });
                  m.push_back(y);
                  if (!same(c.back(), y))
                     fail(SEM, "back");
               }
               else
               {
                  lib([&]{ c.push_front(y); return 0; });
                  m.insert(m.begin(), y);
               }
            }
            break;
         default:
            if constexpr (FULL)
               more(c, m, at, k, p, x);
         }
         check(c, m);
      }
   }
   template<class C> void more(C &c, M &m, typename C::iterator at, size_t k, size_t p, const T &x)
   {
      switch (r.below(6))
      {
      case 0:
      {
         M s = some(k);
         op("splice_after", " %zu at %zu of %zu", k, p, m.size());
         C d;
         lib([&]{ d.insert_after(d.before_begin(), s.data(), s.data() + k); return 0; });
         if constexpr (std::is_same<C, ttl::forward_list<T> >::value)
         {
            lib([&]{ c.splice_after(at, d); return 0; });
            m.insert(m.begin() + p, s.begin(), s.end());
            s.clear();
         }
         check(d, s);
         break;
      }
      case 1:
         op("reverse", " %zu", m.size());
         lib([&]{ c.reverse(); return 0; });
         std::reverse(m.begin(), m.end());
         break;
      case 2:
      {
         M s = some(k);
         op("assign(first,last)", " %zu over %zu", k, m.size());
         lib([&]{ c.assign(s.data(), s.data() + k); return 0; });
         m = s;
         break;
      }
      case 3:
         op("assign(n,x)", " %zu over %zu", k, m.size());
         lib([&]{ c.assign(k, x); return 0; });
         m.assign(k, x);
         break;
      case 4:
      {
         op("copy(n,x)", " %zu", k);
         C d = lib([&]{ return C(k, x); });
         check(d, M(k, x));
         break;
      }
      default:
         op("clear", " %zu", m.size());
         lib([&]{ c.clear(); return 0; });
         m.clear();
      }
   }
   // map, set, sorted_vector_map: keys in some order, looked up, copied, erased
   template<class C, int KIND> void assoc()
   {
      std::vector<int> keys;
      int how = KIND == 2 && n > 5000 ? 0 : (int)r.below(3);
      for (size_t i = 0; i < n; ++i)
         keys.push_back(how == 2 ? (int)i * 2 : how == 1 ? (int)(n - i) * 2 : (int)i * 2);
      if (how == 2)
         for (size_t i = n; i > 1; --i)
            std::swap(keys[i - 1], keys[r.below((unsigned)i)]);
      Flat m;
      op("insert*", " n=%zu order=%d", n, how);
      C c;
      for (size_t i = 0; i < n; ++i)
      {
         if constexpr (KIND == 1)
            lib([&]{ c.insert(keys[i]); return 0; });
         else if (i & 1)
            lib([&]{ c.insert(typename C::value_type(keys[i], (unsigned)i)); return 0; });
         else
            lib([&]{ c[keys[i]] = (unsigned)i; return 0; });
         m.push_back(std::make_pair(keys[i], (unsigned)i));
      }
      std::sort(m.begin(), m.end(), Flat::less);
      acheck<C, KIND>(c, m);
      op("copy", " %zu", m.size());
      C d = lib([&]{ return C(c); });
      acheck<C, KIND>(d, m);
      op("find");
      for (int i = 0; i < 60; ++i)
      {
         int key = i & 1 ? keys[place(r, n)] : (int)r.below((unsigned)n * 2 + 5) - 2;
         alook<C, KIND>(d, m, key);
         alook<const C, KIND>(d, m, key);
      }
      if constexpr (KIND != 2)
      {
         op("erase*");
         size_t some = r.below(2) ? n : n / 2;
         if (r.below(2))
            std::sort(keys.begin(), keys.end());
         for (size_t i = 0; i < some; ++i)
            lib([&]{ c.erase(keys[i]); return 0; });
         m.drop(std::vector<int>(keys.begin(), keys.begin() + some));
         acheck<C, KIND>(c, m);
         op("operator=", " %zu over %zu", m.size(), n);
         lib([&]{ d = c; return 0; });
         acheck<C, KIND>(d, m);
      }
      op("clear", " %zu", m.size());
      lib([&]{ d.clear(); return 0; });
      acheck<C, KIND>(d, Flat());
   }
   template<int KIND, class It> static bool here(It i, const Flat::value_type &e)
   {
      if constexpr (KIND == 1)
         return *i == e.first;
      else
         return i->first == e.first && i->second == e.second;
   }
   template<class C, int KIND> void acheck(const C &c, const Flat &m)
   {
      typename C::const_iterator i = c.begin();
      Flat::const_iterator e = m.begin();
      size_t at = 0;
      for (; e != m.end() && i != c.end(); ++i, ++e, ++at)
         if (!here<KIND>(i, *e))
            fail(SEM, "contents", "entry %zu of %zu", at, m.size());
      if (i != c.end() || e != m.end())
         fail(SEM, "length", "the contents %s after %zu entries, expected %zu", e == m.end() ? "go on" : "end", at, m.size());
      for (; at > 0; --at)
      {
         --i;
         --e;
         if (!here<KIND>(i, *e))
            fail(SEM, "contents", "entry %zu of %zu, backward", at - 1, m.size());
      }
      if (c.empty() != m.empty())
         fail(SEM, "empty");
      if constexpr (KIND == 2)
         if (c.size() != m.size())
            fail(SEM, "size", "size() is %zu, expected %zu", (size_t)c.size(), m.size());
      S->observations++;
      S->elem_checks += m.size() * 2;
      note_state(mix(hstr(S->op), m.size()));
   }
   template<class C, int KIND> void alook(C &c, const Flat &m, int key)
   {
      Flat::const_iterator f = m.find(key), lo = m.lower_bound(key), up = m.upper_bound(key);
      S->observations++;
      auto i = lib([&]{ return c.find(key); });
      if ((i == c.end()) != (f == m.end()) || (f != m.end() && !here<KIND>(i, *f)))
         fail(SEM, "find", "key %d", key);
      yields_n(lib([&]{ return c.count(key); }), m.count(key));
      i = lib([&]{ return c.lower_bound(key); });
      if ((i == c.end()) != (lo == m.end()) || (lo != m.end() && !here<KIND>(i, *lo)))
         fail(SEM, "lower_bound", "key %d", key);
      i = lib([&]{ return c.upper_bound(key); });
      if ((i == c.end()) != (up == m.end()) || (up != m.end() && !here<KIND>(i, *up)))
         fail(SEM, "upper_bound", "key %d", key);
      note_state(mix(mix(hstr("look"), m.size()), key));
   }
   void vmap()
   {
      typedef ttl::vector_map<int, unsigned> C;
      C c;
      typedef std::vector< std::pair<int, unsigned> > PM;
      PM m;
      int dup = (int)r.below(2);
      op("push_back*", " n=%zu", n);
      lib([&]{ c.reserve(n + 8); return 0; });
      for (size_t i = 0; i < n; ++i)
      {
         int key = dup ? (int)r.below(2) : (int)i * 2;
         lib([&]{ c.push_back(C::value_type(key, ++tag)); return 0; });
         m.push_back(std::make_pair(key, tag));
      }
      auto first = [&](int key)
      {
         size_t i = 0;
         while (i < m.size() && m[i].first != key)
            ++i;
         return i;
      };
      const C &cc = c;
      for (int q = 0; q < 8; ++q)
      {
         int key = q & 1 ? m[place(r, m.size())].first : q == 2 ? 1000001 : (int)r.below((unsigned)n * 2) - 1;
         op("find", " of %zu", n);
         yields_n(lib([&]{ return c.find(key); }) - c.begin(), first(key));
         yields_n(lib([&]{ return cc.find(key); }) - cc.begin(), first(key));
         op("count", " of %zu", n);
         yields_n(lib([&]{ return cc.count(key); }), std::count_if(m.begin(), m.end(), [&](const PM::value_type &x) { return x.first == key; }));
         op("insert", " of %zu", n);
         size_t was = first(key);
         ttl::pair<C::iterator, bool> re = lib([&]{ return c.insert(C::value_type(key, ++tag)); });
         yields_n(re.first - c.begin(), was);
         yields(re.second, was == m.size());
         if (was == m.size())
            m.push_back(std::make_pair(key, tag));
         op("operator[]", " of %zu", n);
         note_state(mix(mix(n, was), key & 63));
         int k2 = q & 2 ? key : key + 100000000;
         was = first(k2);
         ++tag;
         lib([&]{ c[k2] = tag; return 0; });
         if (was == m.size())
            m.push_back(std::make_pair(k2, tag));
         m[was].second = tag;
         if (cc.at(k2) != tag)
            fail(SEM, "at");
      }
      op("vector_map(vector_map)");
      C d = lib([&]{ return C(c); });
      yields_n(d.size(), m.size());
      for (size_t i = 0; i < m.size(); ++i)
         if (d.begin()[i].first != m[i].first || c[(int)m[0].first] != m[0].second || d.begin()[i].second != m[i].second ||
             c.begin()[i].second != m[i].second)
            fail(SEM, "contents", "entry %zu of %zu", i, m.size());
      S->elem_checks += m.size();
      note_state(mix(m.size(), dup));
   }
   template<size_t N> void bits()
   {
      typedef ttl::bitset<N> C;
      S->large_cases++;
      if (S->max_size < N)
         S->max_size = N;
      std::vector<bool> m(N), w(N);
      op("bitset()", " N=%zu", N);
      C *pc = lib([&]{ return new C(); }), *pd = lib([&]{ return new C(); });
      C &c = *pc, &d = *pd;
      bcheck(c, m);
      for (int q = 0; q < 12; ++q)
      {
         size_t p = place(r, N), k = r.below(4) ? place(r, N) : N + r.below(200);
         switch (r.below(10))
         {
         case 0:
            op("set(pos)", " many of %zu", N);
            for (int i = 0; i < 400; ++i)
            {
               p = place(r, N);
               lib([&]{ c.set(p); return 0; });
               m[p] = true;
            }
            break;
         case 1:
            op("set()", " N=%zu", N);
            lib([&]{ c.set(); return 0; });
            m.assign(N, true);
            break;
         case 2:
            op("flip()", " N=%zu", N);
            lib([&]{ c.flip(); return 0; });
            m.flip();
            break;
         case 3:
            op("flip(pos)", " %zu of %zu", p, N);
            lib([&]{ c.flip(p); return 0; });
            m[p] = !m[p];
            break;
         case 4:
            op("reset(pos)", " %zu of %zu", p, N);
            lib([&]{ c.reset(p); return 0; });
            m[p] = false;
            break;
         case 5:
         case 6:
         {
            bool left = r.below(2);
            op(left ? "<<=" : ">>=", " %zu of %zu", k, N);
            lib([&]{ left ? c <<= k : c >>= k; return 0; });
            std::vector<bool> e(N);
            for (size_t i = 0; i < N; ++i)
               if (left ? i >= k : k < N && i + k < N)
                  e[i] = m[left ? i - k : i + k];
            m = e;
            break;
         }
         case 7:
         {
            int w3 = (int)r.below(3);
            op(w3 == 0 ? "&=" : w3 == 1 ? "|=" : "^=", " N=%zu", N);
            lib([&]{ w3 == 0 ? c &= d : w3 == 1 ? c |= d : c ^= d; return 0; });
            for (size_t i = 0; i < N; ++i)
               m[i] = w3 == 0 ? m[i] && w[i] : w3 == 1 ? m[i] || w[i] : m[i] != w[i];
            break;
         }
         case 8:
            op("operator=", " N=%zu", N);
            lib([&]{ d = c; return 0; });
            w = m;
            op("==", " N=%zu", N);
            yields(lib([&]{ return d == c && !(d != c); }), true);
            d[p].flip();
            w[p] = !w[p];
            op("==", " differ at %zu of %zu", p, N);
            yields(lib([&]{ return d == c || !(d != c); }), false);
            bcheck(d, w);
            break;
         default:
         {
            op("bitset(string)", " N=%zu", N);
            std::vector<char> s;
            size_t len = r.below(2) ? N : place(r, N) + 1;
            for (size_t i = 0; i < len; ++i)
               s.push_back(r.below(2) ? '1' : '0');
            s.push_back(0);
            C *x = lib([&]{ return new C(s.data()); });
            w.assign(N, false);
            for (size_t i = 0; i < len; ++i)
               w[i] = s[len - 1 - i] == '1';
            lib([&]{ d = *x; return 0; });
            lib([&]{ delete x; return 0; });
            bcheck(d, w);
         }
         }
         bcheck(c, m);
      }
      lib([&]{ delete pc; return 0; });
      lib([&]{ delete pd; return 0; });
   }
   template<size_t N> void bcheck(const ttl::bitset<N> &c, const std::vector<bool> &m)
   {
      size_t n1 = 0;
      for (size_t i = 0; i < N; ++i)
      {
         n1 += m[i];
         if (c.test(i) != m[i] || c[i] != m[i])
            fail(SEM, "test", "bit %zu of %zu is %d", i, N, !m[i]);
      }
      yields_n(lib([&]{ return c.count(); }), n1);
      yields(lib([&]{ return c.any(); }), n1 > 0);
      yields(lib([&]{ return c.none(); }), n1 == 0);
      yields(lib([&]{ return c.all(); }), n1 == N);
      yields_n(c.size(), N);
      S->elem_checks += N;
      note_state(mix(mix(N, n1), hstr(S->op)));
   }
};

template<class T> static void work(Rng &r)
{
   const bool tracked = std::is_same<T, Tr>::value;
   size_t few = tracked ? r.below(4) ? 1000 : 4097 : r.below(4) ? 1000 : 70000;
   if (!strcmp(g_profile, "vector"))
      Work<T>(r, tracked && r.below(4) ? 4097 : 70000).vec();
   else if (!strcmp(g_profile, "fixed_vector"))
   {
      Work<T> w(r, 300);
      switch (r.below(tracked ? 4 : 6))
      {
      case 0: w.template fixed<255>(); break;
      case 1: w.template fixed<256>(); break;
      case 2: w.template fixed<257>(); break;
      case 3: w.template fixed<32770>(); break;
      case 4: w.template fixed<65536>(); break;
      default: w.template fixed<70001>();
      }
   }
   else if (!strcmp(g_profile, "list"))
      Work<T>(r, few).lst();
   else if (!strcmp(g_profile, "forward_list"))
      Work<T>(r, few).template slst<ttl::forward_list<T>, false, true>();
   else if (!strcmp(g_profile, "backward_list"))
      Work<T>(r, few).template slst<ttl::backward_list<T>, true, true>();
   else if (!strcmp(g_profile, "lazy_queue"))
      Work<T>(r, few).template slst<ttl::lazy_queue<T>, true, false>();
   else if (!strcmp(g_profile, "map"))
      Work<T>(r, few).template assoc<ttl::map<int, unsigned>, 0>();
   else if (!strcmp(g_profile, "set"))
      Work<T>(r, few).template assoc<ttl::set<int>, 1>();
   else if (!strcmp(g_profile, "sorted_vector_map"))
      Work<T>(r, few).template assoc<ttl::sorted_vector_map<int, unsigned>, 2>();
   else if (!strcmp(g_profile, "vector_map"))
      Work<T>(r, few).vmap();
   else
   {
      Work<T> w(r, 300);
      switch (r.below(6))
      {
      case 0: w.template bits<255>(); break;
      case 1: w.template bits<300>(); break;
      case 2: w.template bits<4096>(); break;
      case 3: w.template bits<32770>(); break;
      case 4: w.template bits<65536>(); break;
      default: w.template bits<70001>();
      }
   }
}
static void the_case(Rng &r, uint64_t)
{
   switch (r.below(4))
   {
   case 0: work<int>(r); break;
   case 1: work<Tr>(r); break;
   default: work<Rec>(r);
   }
}
int main(int argc, char **argv) { return run(argc, argv, "big_cont", the_case); }
